#include "container_prd.hh"
