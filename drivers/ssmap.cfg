keep ^std::(lower_bound|upper_bound|equal_range|partition_point|binary_search|find_if|find|find_if_not|is_sorted)$
keep ^std::operator(<=>|==|<|!=|>|<=|>=)$
keep ^std::basic_string_view
keep ^std::basic_
keep ^std::unordered_map::
keep ^std::(out_of_range|exception|logic_error|runtime_error)
keep ^mdds::(general_error|invalid_arg_error|size_error|type_error|integrity_error)
entry ^drv::
entry operator\(\)
