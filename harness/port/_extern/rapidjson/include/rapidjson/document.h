#pragma once
#include </usr/include/rapidjson/document.h>
