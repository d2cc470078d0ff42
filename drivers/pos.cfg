keep ^std::vector::
keep ^mdds::mtv::(soa|aos)::detail::adjust_block_positions::operator\(\)(\(.*\))?( const)?$
keep ^std::__cxx11
keep ^std::basic_
keep ^std::(out_of_range|exception|logic_error|runtime_error)
keep ^mdds::(general_error|invalid_arg_error|size_error|type_error|integrity_error)
