// Precompiled for the library builds (only for speed; build.py falls back to a build without it).
#pragma once
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <queue>
#include <regex>
#include <set>
#include <sstream>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <Eigen/Core>
#include <nlohmann/json.hpp>
#include <mutable/mutable.hpp>
#include <mutable/catalog/Catalog.hpp>
