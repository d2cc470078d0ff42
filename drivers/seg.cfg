keep ^std::vector::
keep ^std::deque::
keep ^std::map::
keep ^std::_Rb_tree
keep ^std::unordered_set::
keep ^std::__cxx11
keep ^std::basic_
keep ^std::(sort|unique|find|find_if|count_if)
keep ^std::_Deque
keep ^std::(out_of_range|exception|logic_error|runtime_error|invalid_argument)
keep ^mdds::(general_error|invalid_arg_error|size_error|type_error|integrity_error)
keep ^(mdds::|boost::)?(.*::)?intrusive_ptr_(add_ref|release)
keep ^std::(__)?shared_ptr(_access)?::
