// Precompiled: standard and third-party headers only, plus the repository's most widely included ones.
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cstdint>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <fmt/core.h>
#include <fmt/format.h>
#include <json/json.h>
#include <filesystem.h>
#include <asio.hpp>
#include <roaring/roaring.hh>
// The repository's widely included headers, where they still exist.
#define VH(x) __has_include(x)
#if VH(<Common/Logger.h>)
#include <Common/Logger.h>
#endif
#if VH(<Core/Config.h>)
#include <Core/Config.h>
#endif
#if VH(<Core/Global.h>)
#include <Core/Global.h>
#endif
#if VH(<Core/Models/FullBlock.h>)
#include <Core/Models/FullBlock.h>
#endif
#if VH(<Core/Util/JsonUtil.h>)
#include <Core/Util/JsonUtil.h>
#endif
#if VH(<Crypto/Crypto.h>)
#include <Crypto/Crypto.h>
#endif
#if VH(<Crypto/Hasher.h>)
#include <Crypto/Hasher.h>
#endif
#if VH(<BlockChain/BlockChain.h>)
#include <BlockChain/BlockChain.h>
#endif
#if VH(<Common/Util/FileUtil.h>)
#include <Common/Util/FileUtil.h>
#endif
#undef VH
