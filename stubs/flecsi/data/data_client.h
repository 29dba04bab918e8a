#pragma once
namespace flecsi {
namespace data {
struct data_client_t {};
} // namespace data
} // namespace flecsi
