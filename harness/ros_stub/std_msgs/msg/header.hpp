#ifndef ROS_STUB_HEADER_HPP_
#define ROS_STUB_HEADER_HPP_
#include <cstdint>
#include <string>
namespace builtin_interfaces::msg {struct Time {int32_t sec {0}; uint32_t nanosec {0};};}
namespace std_msgs::msg {struct Header {builtin_interfaces::msg::Time stamp; std::string frame_id;};}
#endif
