// clang 18's <stddef.h> does not declare ::nullptr_t for C++ (gcc's does); simfil/model/nodes.h uses it
#include <cstddef>
using std::nullptr_t;
