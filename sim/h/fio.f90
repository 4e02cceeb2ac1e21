! Fortran I/O on a unit that fnom has connected, for the harnesses.
integer function fio_write(unit, buf, n) bind(c)
  use iso_c_binding
  implicit none
  integer(c_int), value :: unit, n
  integer(c_int), intent(in) :: buf(n)
  integer :: ios
  write(unit, iostat=ios) buf
  fio_write = ios
end function
integer function fio_read(unit, buf, n) bind(c)
  use iso_c_binding
  implicit none
  integer(c_int), value :: unit, n
  integer(c_int), intent(out) :: buf(n)
  integer :: ios
  read(unit, iostat=ios) buf
  fio_read = ios
end function
integer function fio_rewind(unit) bind(c)
  use iso_c_binding
  implicit none
  integer(c_int), value :: unit
  integer :: ios
  rewind(unit, iostat=ios)
  fio_rewind = ios
end function
