! The Fortran interface: the library's module and a thin layer callable from the harness
include 'asagi.f90'

module verif_api
  use, intrinsic :: iso_c_binding
  use asagi
  implicit none
contains
  ! (deferred-length results would be static variables with gfortran)
  recursive function str( c, n ) result( s )
    integer( kind=c_int ), intent(in) :: n
    character( kind=c_char ), dimension(n), intent(in) :: c
    character( len=n ) :: s
    integer :: i
    do i = 1, n
      s(i:i) = c(i)
    end do
  end function str

  recursive function vf_create( t ) bind( c, name="vf_create" )
    integer( kind=c_int ), value :: t
    integer( kind=c_int ) :: vf_create
    integer :: u
    u = t
    if( t < 0 ) then
      vf_create = asagi_grid_create()
    else
      vf_create = asagi_grid_create( u )
    endif
  end function vf_create

  recursive function vf_create_array( t ) bind( c, name="vf_create_array" )
    integer( kind=c_int ), value :: t
    integer( kind=c_int ) :: vf_create_array
    integer :: u
    u = t
    if( t < 0 ) then
      vf_create_array = asagi_grid_create_array()
    else
      vf_create_array = asagi_grid_create_array( u )
    endif
  end function vf_create_array

  recursive function vf_create_struct( n, bl, d, t ) bind( c, name="vf_create_struct" )
    integer( kind=c_int ), value :: n
    integer( kind=c_int ), dimension(n), intent(in) :: bl
    integer( kind=c_long ), dimension(n), intent(in) :: d
    integer( kind=c_int ), dimension(n), intent(in) :: t
    integer( kind=c_int ) :: vf_create_struct
    vf_create_struct = asagi_grid_create_struct( n, bl, d, t )
  end function vf_create_struct

  recursive subroutine vf_set_threads( g, n ) bind( c, name="vf_set_threads" )
    integer( kind=c_int ), value :: g, n
    call asagi_grid_set_threads( g, n )
  end subroutine vf_set_threads

  recursive subroutine vf_set_param( g, name, ln, val, lv, level ) bind( c, name="vf_set_param" )
    integer( kind=c_int ), value :: g, level, ln, lv
    character( kind=c_char ), dimension(*), intent(in) :: name, val
    if( level < 0 ) then
      call asagi_grid_set_param( g, str( name, ln ), str( val, lv ) )
    else
      call asagi_grid_set_param( g, str( name, ln ), str( val, lv ), level )
    endif
  end subroutine vf_set_param

  recursive function vf_open( g, file, ln, level ) bind( c, name="vf_open" )
    integer( kind=c_int ), value :: g, level, ln
    character( kind=c_char ), dimension(*), intent(in) :: file
    integer( kind=c_int ) :: vf_open
    if( level < 0 ) then
      vf_open = asagi_grid_open( g, str( file, ln ) )
    else
      vf_open = asagi_grid_open( g, str( file, ln ), level )
    endif
  end function vf_open

  recursive function vf_dimensions( g ) bind( c, name="vf_dimensions" )
    integer( kind=c_int ), value :: g
    integer( kind=c_int ) :: vf_dimensions
    vf_dimensions = asagi_grid_dimensions( g )
  end function vf_dimensions

  recursive function vf_min( g, n ) bind( c, name="vf_min" )
    integer( kind=c_int ), value :: g, n
    real( kind=c_double ) :: vf_min
    vf_min = asagi_grid_min( g, n )
  end function vf_min

  recursive function vf_max( g, n ) bind( c, name="vf_max" )
    integer( kind=c_int ), value :: g, n
    real( kind=c_double ) :: vf_max
    vf_max = asagi_grid_max( g, n )
  end function vf_max

  recursive function vf_delta( g, n, level ) bind( c, name="vf_delta" )
    integer( kind=c_int ), value :: g, n, level
    real( kind=c_double ) :: vf_delta
    if( level < 0 ) then
      vf_delta = asagi_grid_delta( g, n )
    else
      vf_delta = asagi_grid_delta( g, n, level )
    endif
  end function vf_delta

  recursive function vf_var_size( g ) bind( c, name="vf_var_size" )
    integer( kind=c_int ), value :: g
    integer( kind=c_int ) :: vf_var_size
    vf_var_size = asagi_grid_var_size( g )
  end function vf_var_size

  recursive function vf_get_byte( g, pos, level ) bind( c, name="vf_get_byte" )
    integer( kind=c_int ), value :: g, level
    real( kind=c_double ), dimension(*), intent(in) :: pos
    integer( kind=c_int ) :: vf_get_byte
    if( level < 0 ) then
      vf_get_byte = ichar( asagi_grid_get_byte( g, pos ) )
    else
      vf_get_byte = ichar( asagi_grid_get_byte( g, pos, level ) )
    endif
  end function vf_get_byte

  recursive function vf_get_int( g, pos, level ) bind( c, name="vf_get_int" )
    integer( kind=c_int ), value :: g, level
    real( kind=c_double ), dimension(*), intent(in) :: pos
    integer( kind=c_int ) :: vf_get_int
    if( level < 0 ) then
      vf_get_int = asagi_grid_get_int( g, pos )
    else
      vf_get_int = asagi_grid_get_int( g, pos, level )
    endif
  end function vf_get_int

  recursive function vf_get_long( g, pos, level ) bind( c, name="vf_get_long" )
    integer( kind=c_int ), value :: g, level
    real( kind=c_double ), dimension(*), intent(in) :: pos
    integer( kind=c_long ) :: vf_get_long
    if( level < 0 ) then
      vf_get_long = asagi_grid_get_long( g, pos )
    else
      vf_get_long = asagi_grid_get_long( g, pos, level )
    endif
  end function vf_get_long

  recursive function vf_get_float( g, pos, level ) bind( c, name="vf_get_float" )
    integer( kind=c_int ), value :: g, level
    real( kind=c_double ), dimension(*), intent(in) :: pos
    real( kind=c_float ) :: vf_get_float
    if( level < 0 ) then
      vf_get_float = asagi_grid_get_float( g, pos )
    else
      vf_get_float = asagi_grid_get_float( g, pos, level )
    endif
  end function vf_get_float

  recursive function vf_get_double( g, pos, level ) bind( c, name="vf_get_double" )
    integer( kind=c_int ), value :: g, level
    real( kind=c_double ), dimension(*), intent(in) :: pos
    real( kind=c_double ) :: vf_get_double
    if( level < 0 ) then
      vf_get_double = asagi_grid_get_double( g, pos )
    else
      vf_get_double = asagi_grid_get_double( g, pos, level )
    endif
  end function vf_get_double

  recursive subroutine vf_get_buf( g, buf, pos, level ) bind( c, name="vf_get_buf" )
    integer( kind=c_int ), value :: g, level
    type( c_ptr ), value :: buf
    real( kind=c_double ), dimension(*), intent(in) :: pos
    type( c_ptr ) :: b
    b = buf
    if( level < 0 ) then
      call asagi_grid_get_buf( g, b, pos )
    else
      call asagi_grid_get_buf( g, b, pos, level )
    endif
  end subroutine vf_get_buf

  recursive subroutine vf_close( g ) bind( c, name="vf_close" )
    integer( kind=c_int ), value :: g
    call asagi_grid_close( g )
  end subroutine vf_close

  recursive subroutine vf_constants( e, t ) bind( c, name="vf_constants" )
    integer( kind=c_int ), dimension(13), intent(out) :: e
    integer( kind=c_int ), dimension(5), intent(out) :: t
    e = (/ ASAGI_SUCCESS, ASAGI_MPI_ERROR, ASAGI_THREAD_ERROR, ASAGI_NUMA_ERROR, ASAGI_UNKNOWN_PARAM, ASAGI_INVALID_VALUE, &
      ASAGI_NOT_INITIALIZED, ASAGI_ALREADY_INITIALIZED, ASAGI_NOT_OPEN, ASAGI_VAR_NOT_FOUND, ASAGI_WRONG_SIZE, &
      ASAGI_UNSUPPORTED_DIMENSIONS, ASAGI_INVALID_VAR_SIZE /)
    t = (/ ASAGI_BYTE, ASAGI_INT, ASAGI_LONG, ASAGI_FLOAT, ASAGI_DOUBLE /)
  end subroutine vf_constants
end module verif_api
