// env.h - files, archives, command line and settings as models, for the parts of the library that read and write files.
#pragma once
#include "streams.h"
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
