#pragma once
#include "facet.h"
namespace schaapcommon::facets { class FacetImage {}; }
