/* Stand-in for the project's window: records what is drawn. */
#ifndef DISPLAY_HH
#define DISPLAY_HH
#include "raster.hh"
void world_draw( const BaseRaster & );
class VideoDisplay
{
public:
  VideoDisplay( const BaseRaster &, const bool = false ) {}
  VideoDisplay( const VideoDisplay & ) = delete;
  VideoDisplay & operator=( const VideoDisplay & ) = delete;
  void draw( const BaseRaster & r ) { world_draw( r ); }
  void repaint( void ) {}
  void resize( const std::pair<unsigned int, unsigned int> & ) {}
};
#endif
