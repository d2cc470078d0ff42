keep ^std::vector::
keep ^std::__cxx11
keep ^std::basic_
keep ^std::(out_of_range|exception|logic_error|runtime_error)
keep ^mdds::(general_error|invalid_arg_error|size_error|type_error|integrity_error)
keep ^mdds::mtv::(detail::)?(shared_block_error|element_block_error)
keep ^std::lower_bound
