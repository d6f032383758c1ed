#pragma once
#include <message_filters/synchronizer.h>
