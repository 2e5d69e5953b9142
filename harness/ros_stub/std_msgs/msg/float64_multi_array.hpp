#ifndef ROS_STUB_F64_HPP_
#define ROS_STUB_F64_HPP_
#include <memory>
#include <vector>
namespace std_msgs::msg {struct Float64MultiArray {using SharedPtr = std::shared_ptr<Float64MultiArray>; std::vector<double> data;};}
#endif
