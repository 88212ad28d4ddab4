#include "TGeoManager.h"
