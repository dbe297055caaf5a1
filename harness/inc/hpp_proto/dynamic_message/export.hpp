#pragma once
// stands in for the header CMake generates
#define HPP_PROTO_DYNAMIC_MESSAGE_EXPORT
