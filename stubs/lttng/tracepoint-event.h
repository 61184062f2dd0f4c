// nothing: see tracepoint.h
