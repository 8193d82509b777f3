#include "H5Easy.hpp"
