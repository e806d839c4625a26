#pragma once
#include "Kokkos_Core.hpp"
#include <map>
namespace Kokkos { template<class K,class V,class... P> struct UnorderedMap { std::shared_ptr<std::map<K,V>> m=std::make_shared<std::map<K,V>>(); UnorderedMap(unsigned=0) {} }; }
