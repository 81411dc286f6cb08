#pragma once
#include <message_filters/subscriber.h>
