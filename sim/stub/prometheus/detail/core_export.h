#pragma once
#define PROMETHEUS_CPP_CORE_EXPORT
