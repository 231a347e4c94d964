#pragma once
#include "grpc++/grpc++.h"
