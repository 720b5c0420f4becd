// stands in for the header CMake generates (static build)
#pragma once
#define HPP_PROTO_DYNAMIC_MESSAGE_EXPORT
#define HPP_PROTO_DYNAMIC_MESSAGE_NO_EXPORT
