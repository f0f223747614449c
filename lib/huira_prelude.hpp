// What huira's own umbrella header provides before its parts are included.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <csignal>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
namespace fs = std::filesystem;
#ifndef HUIRA_VERSION
#define HUIRA_VERSION "0.0.0"
#endif
#ifndef HUIRA_DEFAULT_DATA_DIR
#define HUIRA_DEFAULT_DATA_DIR "/repo/data"
#endif
