#ifndef ROS_STUB_VECTOR3_HPP_
#define ROS_STUB_VECTOR3_HPP_
namespace geometry_msgs::msg {struct Vector3 {double x {0}, y {0}, z {0};}; struct Quaternion {double x {0}, y {0}, z {0}, w {1};};}
#endif
