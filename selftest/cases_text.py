S = 'src/Split.cxx'
SQ_OLD = """    while((pos = ret.find(' ', pos)) != std::string::npos) {
      if((pos < ret.length() - 1) && (ret[pos+1] == ' ')) {
	ret.erase(pos, 1);
      }
      else {
	pos = pos + 1;
      }
    }
"""
TRIM = """    while(!ret.empty() && (ret.front() == ' ')) ret.erase(0, 1);
    while(!ret.empty() && (ret.back() == ' ')) ret.pop_back();
"""
SQ_ALL = """    std::string ret = str;

    size_t pos = 0;

    // trim the string. 
""" + TRIM + "    \n" + SQ_OLD
SPLIT_LOOP = """    size_t pos = 0; 
    size_t old_pos = 0; 

    // scan for delims
    while((pos = wrk.find_first_of(delims, old_pos)) != std::string::npos) {
      std::string tkn = wrk.substr(old_pos, pos - old_pos);
      if(no_empty && (tkn.length() == 0)) {
	// do nothing.  -- yup, I know.  But would you write it more clearly?
      }
      else {
	ret.push_back(tkn); 
      }

      old_pos = pos + 1; // skip over the delmiter.
    }

    if(old_pos < wrk.length()) {
      ret.push_back(wrk.substr(old_pos));
    }
"""
VEC = """    auto tres = split(str, delims, no_empty);
    
    for(auto s : tres) {
      ret.push_back(s);
    }
"""
CASES = [
 ('u-sq-one-run', 'bug', 'U02', [(S, "ret.erase(pos, 1);\n      }\n      else {\n\tpos = pos + 1;\n      }", "ret.erase(pos, 1);\n      }\n      pos = pos + 1;")]),
 ('u-sq-len2', 'bug', 'U02', [(S, "pos < ret.length() - 1)", "pos + 2 < ret.length() - 1)")]),
 ('u-sq-erase2', 'bug', 'U02', [(S, "ret.erase(pos, 1);", "ret.erase(pos, 2);")]),
 ('u-sq-notail', 'bug', 'U02', [(S, "    while(!ret.empty() && (ret.back() == ' ')) ret.pop_back();\n", "    if(!ret.empty() && (ret.back() == ' ')) ret.pop_back();\n")]),
 ('u-sq-tabs', 'bug', 'U02', [(S, "(ret.front() == ' ')", "((ret.front() == ' ') || (ret.front() == '\\t'))")]),
 ('u-sq-s-step2', 'same', 'U02', [(S, "pos = pos + 1;\n", "pos = pos + 2;\n")]),
 ('u-sq-find2', 'bug', 'U02', [(S, "ret.find(' ', pos)", "ret.find(' ', pos + 1)")]),
 ('u-sq-early', 'bug', 'U02', [(S, "    std::string ret = str;\n\n    size_t pos = 0;\n", "    std::string ret = str;\n    if(str.size() < 3) return ret;\n    size_t pos = 0;\n")]),
 ('u-sq-s-firstspace', 'same', 'U02', [(S, "while(!ret.empty() && (ret.front() == ' ')) ret.erase(0, 1);", "while((ret.length() > 1) && (ret.front() == ' ')) ret.erase(0, 1);")]),
 ('u-sq-s-onepass', 'same', 'U02 U01', [(S, SQ_ALL, """    std::string ret;
    bool gap = false;
    for(char c : str) {
      if(c == ' ') { gap = !ret.empty(); }
      else {
        if(gap) ret += ' ';
        gap = false;
        ret += c;
      }
    }
""")]),
 ('u-sq-s-index', 'same', 'U02 U01', [(S, SQ_ALL, """    std::string ret;
    for(size_t i = 0; i < str.length(); i++) {
      if((str[i] == ' ') && (ret.empty() || (ret[ret.length() - 1] == ' '))) continue;
      ret.push_back(str[i]);
    }
    if(!ret.empty() && (ret.back() == ' ')) ret.pop_back();
""")]),
 ('u-sq-s-trim', 'same', 'U02', [(S, TRIM, """    size_t first = ret.find_first_not_of(' ');
    if(first == std::string::npos) return "";
    size_t last = ret.find_last_not_of(' ');
    ret = ret.substr(first, last - first + 1);
""")]),
 ('u-sq-s-double', 'same', 'U02', [(S, SQ_OLD, """    while((pos = ret.find("  ")) != std::string::npos) {
      ret.erase(pos, 1);
    }
""")]),
 ('u-sq-s-helper', 'same', 'U02 U01', [(S, "  std::string squashSpaces(const", """  static bool doubled(const std::string & s, size_t p) {
    return (p + 1 < s.size()) && (s[p + 1] == ' ');
  }

  std::string squashSpaces(const"""), (S, "if((pos < ret.length() - 1) && (ret[pos+1] == ' ')) {", "if(doubled(ret, pos)) {")]),
 ('u-sq-s-order', 'same', 'U02 U01', [(S, TRIM, """    while(!ret.empty() && (ret.back() == ' ')) ret.erase(ret.length() - 1);
    while(!ret.empty() && (ret[0] == ' ')) ret = ret.substr(1);
""")]),
 ('u-sp-tail-noempty', 'bug', 'U01', [(S, "if(old_pos < wrk.length()) {", "if(old_pos + 1 < wrk.length()) {")]),
 ('u-sp-firstonly', 'bug', 'U01', [(S, "wrk.find_first_of(delims, old_pos)", "wrk.find(delims, old_pos)")]),
 ('u-sp-skiplead', 'bug', 'U01', [(S, "if(no_empty && (tkn.length() == 0)) {", "if((no_empty || (old_pos == 0)) && (tkn.length() == 0)) {")]),
 ('u-sp-always', 'bug', 'U01', [(S, "if(no_empty && (tkn.length() == 0)) {", "if(tkn.length() == 0) {")]),
 ('u-sp-short', 'bug', 'U01', [(S, "if(no_empty && (tkn.length() == 0)) {", "if(no_empty && (tkn.length() <= 1)) {")]),
 ('u-sp-order', 'bug', 'U01', [(S, "ret.push_back(wrk.substr(old_pos));", "ret.push_front(wrk.substr(old_pos));")]),
 ('u-sp-raw', 'bug', 'U01', [(S, "std::string wrk = squashSpaces(str);", "std::string wrk = str;")]),
 ('u-sp-skiprun', 'bug', 'U01', [(S, "old_pos = pos + 1; // skip over the delmiter.", "old_pos = pos + 1; // skip over the delmiter.\n      if(tkn.empty()) old_pos = wrk.find_first_not_of(delims, pos) == std::string::npos ? old_pos : wrk.find_first_not_of(delims, pos);")]),
 ('u-vec-dropflag', 'bug', 'U01', [(S, "auto tres = split(str, delims, no_empty);", "auto tres = split(str, delims);")]),
 ('u-vec-noempty', 'bug', 'U01', [(S, "    for(auto s : tres) {\n      ret.push_back(s);", "    for(auto s : tres) {\n      if(no_empty && s.empty()) continue;\n      ret.insert(ret.begin(), s);")]),
 ('u-vec-dedupe', 'bug', 'U01', [(S, "    for(auto s : tres) {\n      ret.push_back(s);", "    for(auto s : tres) {\n      if(!ret.empty() && (ret.back() == s)) continue;\n      ret.push_back(s);")]),
 ('u-sp-s-char', 'same', 'U01', [(S, SPLIT_LOOP, """    std::string tkn;
    for(char c : wrk) {
      if(delims.find(c) != std::string::npos) {
        if(!no_empty || !tkn.empty()) ret.push_back(tkn);
        tkn.clear();
      }
      else tkn += c;
    }
    if(!tkn.empty()) ret.push_back(tkn);
""")]),
 ('u-sp-s-true', 'same', 'U01', [(S, SPLIT_LOOP, """    size_t from = 0;
    while(true) {
      size_t to = wrk.find_first_of(delims, from);
      if(to == std::string::npos) break;
      if((to > from) || !no_empty) ret.push_back(wrk.substr(from, to - from));
      from = to + 1;
    }
    std::string last = wrk.substr(from);
    if(last != "") ret.push_back(last);
""")]),
 ('u-sp-s-for', 'same', 'U01', [(S, SPLIT_LOOP, """    size_t old_pos = 0;
    for(size_t pos = wrk.find_first_of(delims); pos != std::string::npos; pos = wrk.find_first_of(delims, old_pos)) {
      if(!(no_empty && (pos == old_pos))) {
        ret.emplace_back(wrk.substr(old_pos, pos - old_pos));
      }
      old_pos = pos + 1;
    }
    if(wrk.length() > old_pos) {
      ret.emplace_back(wrk.substr(old_pos));
    }
""")]),
 ('u-sp-s-lambda', 'same', 'U01', [(S, "    // scan for delims\n", "    auto keep = [&](const std::string & t) { return !(no_empty && t.empty()); };\n"),
   (S, """      if(no_empty && (tkn.length() == 0)) {
	// do nothing.  -- yup, I know.  But would you write it more clearly?
      }
      else {
	ret.push_back(tkn); 
      }
""", "      if(keep(tkn)) ret.push_back(tkn);\n")]),
 ('u-vec-s-range', 'same', 'U01', [(S, "    std::vector<std::string> ret; \n    \n" + VEC, "    auto tres = split(str, delims, no_empty);\n    std::vector<std::string> ret(tres.begin(), tres.end());\n")]),
 ('u-vec-s-insert', 'same', 'U01', [(S, VEC, "    std::list<std::string> tres = split(str, delims, no_empty);\n    ret.insert(ret.end(), tres.begin(), tres.end());\n")]),
 ('u-vec-s-reserve', 'same', 'U01', [(S, VEC, "    auto tres = split(str, delims, no_empty);\n    ret.reserve(tres.size());\n    for(const auto & s : tres) ret.push_back(s);\n")]),
 ('u-vec-s-iter', 'same', 'U01', [(S, VEC, "    auto tres = split(str, delims, no_empty);\n    for(auto it = tres.begin(); it != tres.end(); ++it) ret.push_back(*it);\n")]),
]
