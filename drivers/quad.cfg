keep ^std::vector::
keep ^std::__cxx11
keep ^std::basic_
keep ^std::(out_of_range|exception|logic_error|runtime_error)
keep ^mdds::(general_error|invalid_arg_error|size_error|type_error|integrity_error)
keep ^(mdds::|boost::)?(.*::)?intrusive_ptr_(add_ref|release)
keep ^std::(__)?shared_ptr(_access)?::
