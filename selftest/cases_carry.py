O = 'src/Options.cxx'
F = 'src/Format.cxx'
U = 'src/Utils.cxx'
ISP = '''    if(ab_map.find(ab_name) == ab_map.end()) {
      return false; 
    }
    return ab_map[ab_name]->isPresent();'''
ISL = '''    if(long_map.find(long_name) == long_map.end()) {
      return false; 
    }
    return long_map[long_name]->isPresent();'''
TK = '    std::string cur_tkn("");\n'
PP = "	  pos_arg_vec.push_back(tkn);"
CASES = [
 ('c-lb-noneq', 'bug', 'O03', [(O, ISP, '''    auto it = ab_map.lower_bound(ab_name);
    return (it != ab_map.end()) && it->second->isPresent();''')]),
 ('c-lb-s', 'same', 'O*', [(O, ISP, '''    auto it = ab_map.lower_bound(ab_name);
    if((it == ab_map.end()) || (it->first != ab_name)) return false;
    return it->second->isPresent();''')]),
 ('c-lb-s-str', 'same', 'O*', [(O, ISL, '''    auto it = long_map.lower_bound(long_name);
    if((it == long_map.end()) || (it->first != long_name)) return false;
    return it->second->isPresent();''')]),
 ('c-lb-str-noneq', 'bug', 'O03', [(O, ISL, '''    auto it = long_map.lower_bound(long_name);
    return (it != long_map.end()) && it->second->isPresent();''')]),
 ('c-s-find-once', 'same', 'O*', [(O, ISL, '''    const auto it = long_map.find(long_name);
    return (it != long_map.end()) && it->second->isPresent();''')]),
 ('c-s-count', 'same', 'O*', [(O, ISL, '''    return long_map.count(long_name) && long_map.at(long_name)->isPresent();''')]),
 ('c-static-token', 'bug', 'O04', [(O, TK, '    static std::string cur_tkn;\n')]),
 ('c-s-static-cleared', 'same', 'O*', [(O, TK, '    static std::string cur_tkn;\n    cur_tkn.clear();\n')]),
 ('c-s-static-assigned', 'same', 'O*', [(O, TK, '    static std::string cur_tkn;\n    cur_tkn = "";\n')]),
 ('c-s-thread-counter', 'same', 'O*', [(O, TK, '    static int calls = 0;\n    calls++;\n' + TK)]),
 ('c-pos-unique', 'bug', 'O05', [(O, PP, "	  if(std::find(pos_arg_vec.begin(), pos_arg_vec.end(), tkn) == pos_arg_vec.end()) pos_arg_vec.push_back(tkn);")]),
 ('c-pos-few', 'bug', 'O05', [(O, PP, "	  if(pos_arg_vec.size() < 16) pos_arg_vec.push_back(tkn);")]),
 ('c-static-ss', 'bug', 'F05', [(F, '    std::stringstream ss;\n', '    static std::stringstream ss; ss.str("");\n')]),
 ('c-static-ret', 'bug', 'F03', [(F, '    std::string ret_string;\n', '    static std::string ret_string;\n')]),
 ('c-s-static-ret', 'same', 'F01 F03 F04 F05', [(F, '    std::string ret_string;\n', '    static std::string ret_string;\n    ret_string.clear();\n')]),
 ('c-nul', 'bug', 'F03', [(F, 'ret_string = ret_string + fld.val;', 'ret_string = ret_string + fld.val.c_str();')]),
 ('c-s-len', 'same', 'F01 F02 F03 F04', [(F, 'ret_string = ret_string + fld.val;', 'ret_string.append(fld.val.data(), fld.val.size());')]),
 ('c-s-append', 'same', 'F01 F02 F03 F04', [(F, 'ret_string = ret_string + fld.val;', 'ret_string += fld.val;')]),
 ('c-count-byte', 'bug', 'F04', [(F, 'int unfilled_count = 0;', 'unsigned char unfilled_count = 0;')]),
 ('c-s-count-wide', 'same', 'F01 F03 F04', [(F, 'int unfilled_count = 0;', 'unsigned long unfilled_count = 0;')]),
 ('c-expo-100', 'bug', 'F07', [(F, "std::setw(2) << -exp_val;", "std::setw(2) << (-exp_val) % 100;")]),
 ('c-expo-99', 'bug', 'F07', [(F, "std::setw(2) << -exp_val;", "std::setw(2) << (-exp_val) % 99;")]),
 ('c-expo-char', 'bug', 'F07', [(F, "std::setw(2) << exp_val;", "std::setw(2) << (int)(signed char) exp_val;")]),
 ('c-s-expo-mod', 'same', 'F07', [(F, "std::setw(2) << -exp_val;", "std::setw(2) << (-exp_val) % 1000;")]),
]
CASES += [
 ('c-abs-min', 'bug', 'F08', [(F, '      pre_ss << v;\n      std::string vstr(pre_ss.str());\n      std::reverse(vstr.begin(), vstr.end());\n', '      pre_ss << std::abs(v);\n      std::string vstr(pre_ss.str());\n      std::reverse(vstr.begin(), vstr.end());\n      if(v < 0) vstr += "-";\n')]),
]
