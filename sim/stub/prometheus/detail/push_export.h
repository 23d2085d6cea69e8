#pragma once
#define PROMETHEUS_CPP_PUSH_EXPORT
