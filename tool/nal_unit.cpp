// analysis-only unit: makes the header-only NAL layer and the inline parts visible to the exporter
#include <tuple>
#include <cstdint>
#include <cstdlib>
#include "Narsese/include/Narsese.h"
#include "NAL/Functions/include/TruthFunctions.h"
#include "NAL/Functions/include/TemporalFunctions.h"
#include "NAL/Functions/include/ExtendedBooleanFunction.h"
#include "NAL/Functions/include/UncertaintyMappingFunctions.h"
