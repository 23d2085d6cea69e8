#pragma once
#define PROMETHEUS_CPP_PULL_EXPORT
