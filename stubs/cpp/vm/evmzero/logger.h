// the header of the repository, made safe to include twice
#pragma once
#include_next <vm/evmzero/logger.h>
