"""calls that never return (F06)"""
S = 'src/Split.cxx'
O = 'src/Options.cxx'
M = 'include/MailBox.hxx'
P = 'src/PropertyTree.cxx'
F = 'src/Format.cxx'
CASES = [
    ('f06-inf', 'bug', 'F06', [(F, "else if (std::isinf(v)) {", "else if (std::isinf(v) && (fmt == 'f')) {")]),
    ('f06-neginf', 'bug', 'F06', [(F, "else if (std::isinf(v)) {", "else if (std::isinf(v) && (v > 0)) {")]),
    ('f06-zero', 'bug', 'F06', [(F, "if(v == 0.0) {", "if((v == 0.0) && (significant_digits > 1)) {")]),
    ('f06-zero2', 'bug', 'F06', [(F, "if(v == 0.0) {", "if(false) {")]),
    ('f06-subnormal', 'bug', 'F06', [(F, "if(std::isinf(v_norm) || (v_norm == 0.0)) v_norm = v;", "if(std::isinf(v_norm)) v_norm = v;")]),
    ('f06-round-inf', 'bug', 'F06', [(F, "if(std::isinf(v_norm) || (v_norm == 0.0)) v_norm = v;", "if(v_norm == 0.0) v_norm = v;")]),
    ('f06-abs', 'bug', 'F06', [(F, "double av = fabs(v);", "double av = v;")]),
    ('f06-left', 'bug', 'F06', [(F, "      frac_wid++;\n      sd_left--;", "      frac_wid++;\n      if(dfrac_part > 0.0) sd_left--;")]),
    ('f06-fill', 'bug', 'F06', [(F, "while(fill_wid > 0) {", "while(fill_wid != 0) {")]),
    ('f06-pad', 'bug', 'F06', [(F, "while(ret.size() < w) {", "while(ret.size() != w) {")]),
    ('f06-width', 'bug', 'F06', [(F, "    while(v > 1.0) {\n      v = v / 10.0;", "    while(v > 1.0) {\n      v = v / 1.0;")]),
    ('f06-iw', 'bug', 'F06', [(F, "      modval = modval * 10; \n      iw--;", "      modval = modval * 10;")]),
    ('f06-spaces', 'bug', 'F06', [(F, "      int spaces = width - v.size();\n      for(int i = 0; i < spaces; i++) {", "      int spaces = width - v.size();\n      for(int i = 0; i != spaces; i++) {")]),
    ('f06-path', 'bug', 'F06', [(P, "ret = parent->getPathName();", "ret = getPathName();")]),
    ('f06-squash', 'bug', 'F06', [(S, "	pos = pos + 1;", "	pos = ret.find_first_not_of(\" \", pos) > pos + 1 ? pos + 1 : pos;")]),
    ('f06-squash2', 'bug', 'F06', [(S, "	pos = pos + 1;", "")]),
    ('f06-split', 'bug', 'F06', [(S, "      old_pos = pos + 1;", "      old_pos = pos + (no_empty ? 1 : 0);")]),
    ('f06-split2', 'bug', 'F06', [(S, "      if(no_empty && (tkn.length() == 0)) {", "      if(no_empty && (tkn.length() == 0)) { if(delims.size() > 1) continue;")]),
    ('f06-trim', 'bug', 'F06', [(S, "while(!ret.empty() && (ret.back() == ' ')) ret.pop_back();", "while(!ret.empty() && (ret.back() == ' ')) ret.erase(ret.size(), 1);")]),
    ('f06-parse', 'bug', 'F06', [(O, "      std::string tkn = tokens.front();\n      tokens.pop_front();", "      std::string tkn = tokens.front();\n      if(tkn != \"-\") tokens.pop_front();")]),
    ('f06-mbox', 'bug', 'F06', [(M, "      std::lock_guard<std::mutex> lock(mtx);	      \n      auto & mqueue = getQueue(subs); \n      if(mqueue.empty()) {", "      std::lock_guard<std::mutex> lock(mtx);\n      auto & mqueue = getQueue(subs); \n      if(readyCount(subs) == 0) {")]),
    ('f06-same-count', 'same', 'F06', [(F, "while(sd_left > 0) {", "for(; sd_left >= 1; ) {")]),
    ('f06-same-fill', 'same', 'F06', [(F, "	while(fill_wid > 0) {\n	  ss << ' ';\n	  fill_wid--;\n	}", "	if(fill_wid > 0) ss << std::string(fill_wid, ' ');")]),
    ('f06-same-pad', 'same', 'F06', [(F, "while(ret.size() < w) {\n      ret.push_back(' ');\n    }", "for(size_t n = ret.size(); n < w; n++) ret += ' ';")]),
    ('f06-same-pad2', 'same', 'F06', [(F, "while(ret.size() < w) {\n      ret.push_back(' ');\n    }", "while(true) { if(ret.size() >= w) break; ret.append(1, ' '); }")]),
    ('f06-same-while', 'same', 'F06', [(F, "    for(int s = 0; s < sig_digs; s++) {\n      ri = ri / 10.0;\n    }", "    int s = sig_digs;\n    while(s-- > 0) {\n      ri = ri / 10.0;\n    }")]),
    ('f06-same-path', 'same', 'F06', [(P, "	auto child = dictionary[pathlist.front()]; \n	pathlist.pop_front();\n	return child->getPropRecursive(pathlist, orig_pathname, throw_exception);",
                                       "	auto child = dictionary[pathlist.front()]; \n	std::list<std::string> rest(++pathlist.begin(), pathlist.end());\n	return child->getPropRecursive(rest, orig_pathname, throw_exception);")]),
    ('f06-same-parse', 'same', 'F06', [(O, "    while(!tokens.empty()) {\n      std::string tkn = tokens.front();\n      tokens.pop_front();", "    for(auto & tkn : tokens) {")]),
    ('f06-same-scale', 'same', 'F06', [(F, "      while(v_norm < 1.0) {\n	ret -= 3; \n	v_norm = v_norm * 1000.0; \n      }", "      do {\n	ret -= 3; \n	v_norm *= 1000.0; \n      } while(v_norm < 1.0);")]),
    ('f06-same-split', 'same', 'F06', [(S, "while((pos = wrk.find_first_of(delims, old_pos)) != std::string::npos) {", "for(pos = wrk.find_first_of(delims, old_pos); pos != std::string::npos; pos = wrk.find_first_of(delims, old_pos)) {")]),
]
