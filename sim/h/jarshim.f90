! The type-bound procedures of rmn_jar for the C++ harness: a table of jars.
module jarshim
  use iso_c_binding
  use rmn_jar
  implicit none
  type(jar), save, target :: j(0:63)
contains
  function lg(x) result(r)
    logical, intent(in) :: x
    integer(c_int) :: r
    r = merge(1, 0, x)
  end function
  function js_new(i, n, wide) result(r) bind(C)
    integer(c_int), value :: i, wide
    integer(c_int64_t), value :: n
    integer(c_int) :: r
    if (wide /= 0) then
      r = lg(j(i) % new(n))
    else
      r = lg(j(i) % new(int(n, c_int32_t)))
    end if
  end function
  function js_shape(i, a, n) result(r) bind(C)
    integer(c_int), value :: i, n
    integer(c_int64_t), intent(inout) :: a(n)
    integer(c_int) :: r
    r = lg(j(i) % shape_with(a, n))
  end function
  function js_free(i) result(r) bind(C)
    integer(c_int), value :: i
    integer(c_int) :: r
    r = j(i) % free()
  end function
  subroutine js_reset(i) bind(C)
    integer(c_int), value :: i
    call j(i) % reset()
  end subroutine
  subroutine js_ask(i, v) bind(C)
    integer(c_int), value :: i
    integer(c_int64_t), intent(out) :: v(9)
    integer(JAR_ELEMENT), pointer :: p(:)
    v(1) = lg(j(i) % is_valid()); v(2) = j(i) % get_size(); v(3) = j(i) % get_top(); v(4) = j(i) % get_bot(); v(5) = j(i) % get_num_avail()
    v(6) = transfer(j(i) % raw_data(), v(6))
    p => j(i) % f_array(); v(7) = -1
    if (associated(p)) v(7) = size(p)
    if (v(7) > 0) then
      if (loc(p(1)) /= v(6)) v(7) = -2
    end if
    p => j(i) % full_f_array(); v(8) = -1
    if (associated(p)) v(8) = size(p)
    v(9) = 0
  end subroutine
  function js_put(i, kind, buf, nbytes, pos) result(r) bind(C)
    integer(c_int), value :: i, kind
    integer(c_int8_t), intent(in), target :: buf(*)
    integer(c_int64_t), value :: nbytes, pos
    integer(c_int) :: r
    real(c_double), pointer :: d(:,:)
    character(len=nbytes) :: s
    integer(c_int64_t) :: k
    select case (kind)
    case (1)
      do k = 1, nbytes
        s(k:k) = char(iand(int(buf(k)), 255))
      end do
      if (pos /= -99) then
        r = lg(j(i) % insert_string(s, pos))
      else
        r = lg(j(i) % insert_string(s))
      end if
    case (2)
      call c_f_pointer(c_loc(buf), d, [2_8, nbytes / 16])
      if (pos /= -99) then
        r = lg(j(i) % insert(d, storage_size(d) * size(d, kind=8), pos))
      else
        r = lg(j(i) % insert(d, storage_size(d) * size(d, kind=8)))
      end if
    case default
      if (pos /= -99) then
        r = lg(j(i) % insert(buf, nbytes * 8, pos))
      else
        r = lg(j(i) % insert(buf, nbytes * 8))
      end if
    end select
  end function
  function js_get(i, kind, buf, nbytes, pos) result(r) bind(C)
    integer(c_int), value :: i, kind
    integer(c_int8_t), intent(inout), target :: buf(*)
    integer(c_int64_t), value :: nbytes, pos
    integer(c_int) :: r
    real(c_double), pointer :: d(:,:)
    character(len=nbytes), pointer :: s
    select case (kind)
    case (1)
      call str(c_loc(buf), nbytes, s)
      if (pos /= -99) then
        r = lg(j(i) % extract_string(s, pos))
      else
        r = lg(j(i) % extract_string(s))
      end if
    case (2)
      call c_f_pointer(c_loc(buf), d, [2_8, nbytes / 16])
      if (pos /= -99) then
        r = lg(j(i) % extract(d, storage_size(d) * size(d, kind=8), pos))
      else
        r = lg(j(i) % extract(d, storage_size(d) * size(d, kind=8)))
      end if
    case default
      if (pos /= -99) then
        r = lg(j(i) % extract(buf, nbytes * 8, pos))
      else
        r = lg(j(i) % extract(buf, nbytes * 8))
      end if
    end select
  end function
  subroutine str(p, n, s)
    type(c_ptr), intent(in) :: p
    integer(c_int64_t), intent(in) :: n
    character(len=n), pointer, intent(out) :: s
    character(len=n), pointer :: q
    call c_f_pointer(p, q)
    s => q
  end subroutine
  ! a jar that goes out of scope
  function js_scope(n, a, own) result(r) bind(C)
    integer(c_int), value :: n, own
    integer(c_int64_t), intent(inout) :: a(n)
    integer(c_int) :: r
    type(jar) :: l
    integer(c_int64_t) :: b(n)
    if (own /= 0) then
      r = lg(l % new(n))
      if (r == 1) r = lg(l % insert(a, 64_8 * n))
    else
      r = lg(l % shape_with(a, n))
    end if
    if (r == 1) then
      r = lg(l % extract(b, 64_8 * n))
      if (r == 1) r = lg(all(a == b))
    end if
  end function
end module
