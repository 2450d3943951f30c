#include "libfork.hpp"
