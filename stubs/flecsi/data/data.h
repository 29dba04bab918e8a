#pragma once
#include "data_client.h"
