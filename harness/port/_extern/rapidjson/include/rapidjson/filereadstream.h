#pragma once
#include </usr/include/rapidjson/filereadstream.h>
