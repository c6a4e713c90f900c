#pragma once
#include "gipfeli/compression.h"
