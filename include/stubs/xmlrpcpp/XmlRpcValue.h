#pragma once
#include <XmlRpcValue.h>
