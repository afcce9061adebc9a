"""accesses outside a container (G01)"""
S = 'src/Split.cxx'
O = 'src/Options.cxx'
M = 'include/MailBox.hxx'
P = 'src/PropertyTree.cxx'
F = 'src/Format.cxx'
CASES = [
    ('g01-trim-front', 'bug', 'G01', [(S, "while(!ret.empty() && (ret.front() == ' '))", "while(ret.front() == ' ')")]),
    ('g01-trim-back', 'bug', 'G01', [(S, "while(!ret.empty() && (ret.back() == ' '))", "while(ret.back() == ' ')")]),
    ('g01-squash-last', 'bug', 'G01', [(S, "if((pos < ret.length() - 1) && (ret[pos+1] == ' '))", "if(ret[pos+3] == ' ' && ret[pos+1] == ' ')")]),
    ('g01-posarg-le', 'bug', 'G01', [(O, "if(idx >= pos_arg_vec.size())", "if(idx > pos_arg_vec.size())")]),
    ('g01-posarg-int', 'bug', 'G01', [(O, "if(idx >= pos_arg_vec.size())", "if(idx >= (int) pos_arg_vec.size())")]),
    ('g01-posarg-none', 'bug', 'G01', [(O, "if(idx >= pos_arg_vec.size()) return std::string(\"\");\n    else return", "return")]),
    ('g01-findopt', 'bug', 'G01', [(O, """    if(long_map.find(long_name) == long_map.end()) {
      return false; 
    }
    return long_map[long_name]->isPresent();""", "    return long_map[long_name]->isPresent();")]),
    ('g01-findopt-end', 'bug', 'G01', [(O, """    if(ab_map.find(ab_name) == ab_map.end()) {
      return false; 
    }
    return ab_map[ab_name]->isPresent();""", "    return ab_map.find(ab_name)->second->isPresent();")]),
    ('g01-parse-eager', 'bug', 'G01', [(O, """      tokens.pop_front();

      int sw_len;""", """      tokens.pop_front();
      std::string nxt = tokens.front();
      if(nxt == "--") continue;

      int sw_len;""")]),
    ('g01-null-option', 'bug', 'G01', [(O, """	if(arg_p == nullptr) {
	  throw BadOptionNameException(tkn); 
	}
""", "")]),
    ('g01-same-at', 'same', 'G01', [(S, "(ret[pos+1] == ' ')", "(ret.at(pos+1) == ' ')")]),
    ('g01-same-trim', 'same', 'G01 U02', [(S, "while(!ret.empty() && (ret.front() == ' ')) ret.erase(0, 1);", "while(ret.size() > 0 && ret[0] == ' ') ret = ret.substr(1);")]),
    ('g01-same-trim2', 'same', 'G01 U02', [(S, "while(!ret.empty() && (ret.back() == ' ')) ret.pop_back();", "while(!ret.empty() && (ret[ret.size() - 1] == ' ')) ret.erase(ret.size() - 1);")]),
    ('g01-same-posarg', 'same', 'G01 O08', [(O, "if(idx >= pos_arg_vec.size()) return std::string(\"\");\n    else return pos_arg_vec[idx];", "if((idx < 0) || (((size_t) idx) >= pos_arg_vec.size())) return std::string(\"\");\n    return pos_arg_vec.at(idx);")]),
    ('g01-same-find', 'same', 'G01 O08', [(O, """    if(long_map.find(long_name) == long_map.end()) {
      return false; 
    }
    return long_map[long_name]->isPresent();""", """    auto it = long_map.find(long_name);
    return (it != long_map.end()) && it->second->isPresent();""")]),
    ('g01-same-count', 'same', 'G01 O08', [(O, """    if(ab_map.find(ab_name) == ab_map.end()) {
      return false; 
    }
    return ab_map[ab_name]->isPresent();""", """    if(ab_map.count(ab_name) == 0) return false;
    return ab_map.at(ab_name)->isPresent();""")]),
    ('g01-tree-front', 'bug', 'G01', [(P, "    if(pathlist.size() == 0) {\n      return this; \n    }\n    else if", "    if")]),
    ('g01-tree-null', 'bug', 'G01', [(P, "    else if(dictionary.find(pathlist.front()) != dictionary.end()) {", "    else if(throw_exception || (dictionary.find(pathlist.front()) != dictionary.end())) {")]),
    ('g01-same-tree', 'same', 'G01 T01 T02', [(P, """	auto child = dictionary[pathlist.front()]; 
	pathlist.pop_front();""", """	auto it = dictionary.find(pathlist.front());
	auto child = it->second;
	pathlist.erase(pathlist.begin());""")]),
    ('g01-mbox-front', 'bug', 'G01', [(M, "      if(mqueue.empty()) {\n	return nullptr;\n      }\n      else {\n", "      {\n")]),
    ('g01-mbox-pop', 'bug', 'G01', [(M, "	auto ret = mqueue.front();\n	mqueue.pop();", "	auto ret = mqueue.front();\n	mqueue.pop();\n	while(!mqueue.front()) mqueue.pop();")]),
]
