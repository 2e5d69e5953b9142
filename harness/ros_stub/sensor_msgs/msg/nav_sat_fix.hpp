#ifndef ROS_STUB_NAVSATFIX_HPP_
#define ROS_STUB_NAVSATFIX_HPP_
#include <array>
#include <memory>
#include "../../std_msgs/msg/header.hpp"
namespace sensor_msgs::msg
{
struct NavSatStatus {int8_t status {0}; uint16_t service {0};};
struct NavSatFix
{
  using SharedPtr = std::shared_ptr<NavSatFix>;
  std_msgs::msg::Header header;
  NavSatStatus status;
  double latitude {0}, longitude {0}, altitude {0};
  std::array<double, 9> position_covariance {};
  uint8_t position_covariance_type {0};
};
}
#endif
