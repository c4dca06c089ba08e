package com.google.protobuf;
/** Stand-in for the protobuf runtime: messages are plain holders of fields. */
public abstract class GeneratedMessageV3 implements Message {
}
