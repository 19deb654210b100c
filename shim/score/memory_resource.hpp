#pragma once
#include <cstddef>
#include <memory_resource>
namespace score::cpp::pmr
{
using std::pmr::memory_resource;
template <class T = std::byte> using polymorphic_allocator = std::pmr::polymorphic_allocator<T>;
using std::pmr::get_default_resource;
using std::pmr::new_delete_resource;
using std::pmr::set_default_resource;
}
