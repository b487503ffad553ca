#ifndef TAO_PEGTL_FILE_INPUT_HPP
#define TAO_PEGTL_FILE_INPUT_HPP
#include <string>
#include <string_view>
#include "/usr/include/tao/pegtl/config.hpp"
#include "/usr/include/tao/pegtl/eol.hpp"
#include "/usr/include/tao/pegtl/memory_input.hpp"
#include "/usr/include/tao/pegtl/tracking_mode.hpp"
bool sx_read_file(const char* name, std::string& out);
namespace TAO_PEGTL_NAMESPACE {
namespace internal {
struct sx_file_holder {
	std::string text;
	explicit sx_file_holder(std::string_view n) { if (!sx_read_file(std::string(n).c_str(), text)) throw std::runtime_error("cannot open file"); }
};
}
template <tracking_mode P = tracking_mode::eager, typename Eol = eol::lf_crlf>
struct file_input : private internal::sx_file_holder, public memory_input<P, Eol> {
	explicit file_input(std::string_view n) : internal::sx_file_holder(n), memory_input<P, Eol>(text.data(), text.data() + text.size(), std::string(n)) {}
	file_input(const file_input&) = delete;
	file_input(file_input&&) = delete;
	~file_input() = default;
	file_input& operator=(const file_input&) = delete;
	file_input& operator=(file_input&&) = delete;
};
}
#endif
