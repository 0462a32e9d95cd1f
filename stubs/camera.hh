/* Stand-in for the project's camera: the harness supplies the pictures. */
#ifndef CAMERA_HH
#define CAMERA_HH
#include <linux/videodev2.h>
#include <string>
#include <unordered_map>
#include "optional.hh"
#include "file_descriptor.hh"
#include "raster_handle.hh"
#include "frame_input.hh"
static const std::unordered_map<std::string, uint32_t> PIXEL_FORMAT_STRS {
  { "NV12", V4L2_PIX_FMT_NV12 }, { "YUYV", V4L2_PIX_FMT_YUYV }, { "YU12", V4L2_PIX_FMT_YUV420 }, { "MJPG", V4L2_PIX_FMT_MJPEG }
};
Optional<RasterHandle> world_camera_frame();
uint16_t world_camera_width();
uint16_t world_camera_height();
int world_camera_fd();
class Camera : public FrameInput
{
  FileDescriptor fd_ { world_camera_fd() };
public:
  Camera( const uint16_t, const uint16_t, const uint32_t = V4L2_PIX_FMT_YUV420, const std::string = "/dev/video0" ) {}
  ~Camera() {}
  Optional<RasterHandle> get_next_frame() override { return world_camera_frame(); }
  uint16_t display_width() override { return world_camera_width(); }
  uint16_t display_height() override { return world_camera_height(); }
  FileDescriptor & fd() { return fd_; }
};
#endif
