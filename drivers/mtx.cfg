keep ^std::vector::
keep ^std::__cxx11
keep ^std::basic_
keep ^std::(out_of_range|exception|logic_error|runtime_error)
keep (^| )std::(__)?(advance|distance)$
keep ^mdds::(general_error|invalid_arg_error|size_error|type_error|integrity_error)
keep ^mdds::mtv::(soa|aos)::multi_type_vector::[^:]*$
keep ^mdds::mtv::(soa|aos)::detail::
keep ^mdds::mtv::[a-z_0-9]*element_block
keep ^drv::fn
keep ^__gnu_cxx::__normal_iterator::
