"""Stand-in: messages are built from descriptors by pgvpb."""


class Error(Exception):
    pass


class Message(object):
    pass
