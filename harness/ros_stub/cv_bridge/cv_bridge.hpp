#ifndef ROS_STUB_CV_BRIDGE_HPP_
#define ROS_STUB_CV_BRIDGE_HPP_
#include <memory>
#include <stdexcept>
#include <string>
#include <opencv2/opencv.hpp>
#include "../sensor_msgs/msg/image.hpp"
namespace cv_bridge
{
struct Exception : std::runtime_error {using std::runtime_error::runtime_error;};
inline int CvType(const std::string & e)
{
  if (e == "mono8" || e == "8UC1") {return CV_8UC1;}
  if (e == "bgr8" || e == "rgb8" || e == "8UC3") {return CV_8UC3;}
  throw Exception("encoding " + e);
}
class CvImage
{
public:
  CvImage() {}
  CvImage(const std_msgs::msg::Header & h, const std::string & e, const cv::Mat & i) : header(h), encoding(e), image(i) {}
  sensor_msgs::msg::Image::SharedPtr toImageMsg() const
  {
    auto m = std::make_shared<sensor_msgs::msg::Image>();
    m->header = header; m->encoding = encoding;
    m->height = static_cast<uint32_t>(image.rows); m->width = static_cast<uint32_t>(image.cols);
    m->step = static_cast<uint32_t>(image.cols * image.elemSize());
    for (int r = 0; r < image.rows; ++r) {m->data.insert(m->data.end(), image.ptr(r), image.ptr(r) + m->step);}
    return m;
  }
  std_msgs::msg::Header header;
  std::string encoding;
  cv::Mat image;
};
using CvImagePtr = std::shared_ptr<CvImage>;
inline CvImagePtr toCvCopy(const sensor_msgs::msg::Image::SharedPtr & m, const std::string & encoding = std::string())
{
  auto p = std::make_shared<CvImage>();
  p->header = m->header; p->encoding = m->encoding;
  int type = CvType(m->encoding);
  cv::Mat i(static_cast<int>(m->height), static_cast<int>(m->width), type);
  for (int r = 0; r < i.rows; ++r) {std::copy_n(m->data.begin() + static_cast<long>(r) * m->step, i.cols * i.elemSize(), i.ptr(r));}
  p->image = i;
  if (!encoding.empty() && encoding != m->encoding) {
    if (encoding == "mono8" && m->encoding == "bgr8") {cv::cvtColor(i, p->image, cv::COLOR_BGR2GRAY);} else if (encoding == "mono8" && m->encoding == "rgb8") {
      cv::cvtColor(i, p->image, cv::COLOR_RGB2GRAY);
    } else {throw Exception("conversion of " + m->encoding + " to " + encoding);}
    p->encoding = encoding;
  }
  return p;
}
}  // namespace cv_bridge
#endif
