/* gives a program's main function another name without changing what it is (it may end without returning a value) */
int main( int, char ** ) __asm__( "webcam_main" );
