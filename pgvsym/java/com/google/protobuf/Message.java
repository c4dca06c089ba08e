package com.google.protobuf;
public interface Message {
}
