#pragma once
namespace sensor_msgs::image_encodings {const char MONO8[] = "mono8"; const char BGR8[] = "bgr8";}
