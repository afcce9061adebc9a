S = 'src/Format.cxx'
H = 'include/Format.hxx'
INS = '''    for (auto & fld : format_string_segments) {
      if((fld.seg_type == FmtStringSeg::FMT_VAL) && (fld.idx == cur_arg_number)) {
	fld.val = s; 
	fld.seg_type = FmtStringSeg::LITERAL; 
      }
    }

    cur_arg_number++;
'''
STR = '''    for(auto & fld : format_string_segments) {
      if(fld.seg_type == FmtStringSeg::LITERAL) {
	ret_string = ret_string + fld.val;
      }
      else if(fld.seg_type == FmtStringSeg::FMT_VAL) {
	std::stringstream ss;
	ss << '%' << fld.idx;
	ret_string = ret_string + ss.str();
	unfilled_count++; 
      }
    }
'''
CASES = [
    # F01
    ('f01-break', 'bug', 'F01', [(S, '	fld.seg_type = FmtStringSeg::LITERAL; \n', '	fld.seg_type = FmtStringSeg::LITERAL; \n break;\n')]),
    ('f01-no-kind', 'bug', 'F01', [(S, '(fld.seg_type == FmtStringSeg::FMT_VAL) && (fld.idx == cur_arg_number)', 'fld.idx == cur_arg_number')]),
    ('f01-ge', 'bug', 'F01', [(S, '(fld.idx == cur_arg_number)', '(fld.idx >= cur_arg_number)')]),
    ('f01-stays', 'bug', 'F01 F03', [(S, '	fld.seg_type = FmtStringSeg::LITERAL; \n', '')]),
    ('f01-noinc-empty', 'bug', 'F01', [(S, '    cur_arg_number++;\n', '    if(!s.empty()) cur_arg_number++;\n')]),
    ('f01-inc-in-loop', 'bug', 'F01', [(S, INS, '''    for (auto & fld : format_string_segments) {
      if((fld.seg_type == FmtStringSeg::FMT_VAL) && (fld.idx == cur_arg_number)) {
	fld.val = s; 
	fld.seg_type = FmtStringSeg::LITERAL; 
        cur_arg_number++;
      }
    }
''')]),
    ('f01-nan-noinsert', 'bug', 'F01', [(S, '      insertField(pad("nan", width));\n      return *this;', '      return *this;')]),
    ('f01-inf-twice', 'bug', 'F01', [(S, '      insertField(pad((v < 0) ? "-inf" : "inf", width));\n      return *this;', '      insertField(pad((v < 0) ? "-inf" : "inf", width));\n')]),
    ('f01-adds-empty', 'bug', 'F01', [(S, '    else {\n      insertField(v);\n    }', '    else if(!v.empty()) {\n      insertField(v);\n    }')]),
    ('f01-addb-twice', 'bug', 'F01', [(S, '    ss << (v ? "T" : "F");\n    insertField(ss.str());', '    ss << (v ? "T" : "F");\n    insertField(ss.str()); if(!v) insertField("");')]),
    ('f01-str-inc', 'bug', 'F01', [(H, 'unsigned int cur_arg_number;', 'mutable unsigned int cur_arg_number;'), (S, '    return ret_string; \n  }\n\n  double', '    if(check_for_filled_out) cur_arg_number = 0;\n    return ret_string; \n  }\n\n  double')]),
    ('f01-max-idx', 'bug', 'F01', [(S, '(fld.idx == cur_arg_number)', '(fld.idx == cur_arg_number) && (fld.idx < 10)')]),
    ('f01-first-only', 'bug', 'F01', [(S, INS, '''    bool did = false;
    for (auto & fld : format_string_segments) {
      if(!did && (fld.seg_type == FmtStringSeg::FMT_VAL) && (fld.idx == cur_arg_number)) {
	fld.val = s; did = true;
	fld.seg_type = FmtStringSeg::LITERAL; 
      }
    }

    cur_arg_number++;
''')]),
    ('f01-same-iter', 'same', 'F*', [(S, INS, '''    const unsigned int n = cur_arg_number++;
    for (auto it = format_string_segments.begin(); it != format_string_segments.end(); ++it) {
      if(it->seg_type != FmtStringSeg::FMT_VAL) continue;
      if(it->idx != n) continue;
      it->seg_type = FmtStringSeg::LITERAL; 
      it->val = s; 
    }
''')]),
    ('f01-same-helper', 'same', 'F*', [(S, '      if((fld.seg_type == FmtStringSeg::FMT_VAL) && (fld.idx == cur_arg_number)) {\n	fld.val = s; \n	fld.seg_type = FmtStringSeg::LITERAL; \n      }', '      fld.fill(cur_arg_number, s);'),
       (H, '      SegType seg_type; \n', '      void fill(unsigned int n, const std::string & s) { if((seg_type == FMT_VAL) && (idx == n)) { val = s; seg_type = LITERAL; } }\n      SegType seg_type; \n')]),
    ('f01-same-inline', 'same', 'F*', [(S, '''    ss << (v ? "T" : "F");
    insertField(ss.str());''', '''    std::string s(v ? "T" : "F");
''' + INS)]),
    ('f01-same-early', 'same', 'F*', [(S, '''    if(width < 0)  {
      for(auto c : v) {''', '''    if(width == 0) { insertField(v); return *this; }
    if(width < 0)  {
      for(auto c : v) {''')]),
    # F02
    ('f02-single-digit', 'bug', 'F02', [(S, 'cur_fldnum = cur_fldnum * 10 + ((unsigned int) (c - \'0\'));', 'cur_fldnum = ((unsigned int) (c - \'0\'));')]),
    ('f02-adjacent', 'bug', 'F02', [(S, "	  if(c == '%') {\n	    s_state = SAW_PC;\n	  }\n	  else {\n	    s_state = NORM;\n	  }", '	    s_state = NORM;\n')]),
    ('f02-drop-lone', 'bug', 'F02', [(S, "if(c != '%') cur_str.push_back(c);", "if(isalpha(c)) cur_str.push_back(c);")]),
    ('f02-drop-pct', 'bug', 'F02', [(S, "	  cur_str.push_back('%');\n	  // if the input", "	  if(c == '%') cur_str.push_back('%');\n	  // if the input")]),
    ('f02-lost-after', 'bug', 'F02', [(S, "	  if(s_state == NORM) {\n	    cur_str.push_back(c);\n	  }", "	  if(s_state == NORM && c != ' ') {\n	    cur_str.push_back(c);\n	  }")]),
    ('f02-trailing-num', 'bug', 'F02', [(S, "    case ACC_FLDNUM:\n      format_string_segments.push_back(FmtStringSeg(cur_fldnum));\n      break; \n    }\n  }", "    case ACC_FLDNUM:\n      break; \n    }\n  }")]),
    ('f02-trailing-pct', 'bug', 'F02', [(S, "      cur_str.push_back('%');\n      // fall through. ", "      // fall through. ")]),
    ('f02-notcleared', 'bug', 'F02', [(S, "	    format_string_segments.push_back(FmtStringSeg(cur_str));\n	    cur_str.clear();", "	    format_string_segments.push_back(FmtStringSeg(cur_str));\n")]),
    ('f02-digit7', 'bug', 'F02', [(S, "	if(isdigit(c)) {\n	  cur_fldnum =", "	if(c >= '0' && c < '9') {\n	  cur_fldnum =")]),
    ('f02-isxdigit', 'bug', 'F02', [(S, "	if(isdigit(c)) {\n	  // we should", "	if(isxdigit(c)) {\n	  // we should")]),
    ('f02-num-from-one', 'bug', 'F02', [(S, "cur_fldnum = (unsigned int) (c - '0');", "cur_fldnum = (unsigned int) (c - '1');")]),
    ('f02-pctpct', 'bug', 'F02', [(S, "if(c != '%') cur_str.push_back(c);", "cur_str.push_back(c);")]),
    ('f02-stay-pc', 'bug', 'F02', [(S, "	  // and now we're normal\n	  s_state = NORM;", "	  // and now we're normal\n	  if(c != '%') s_state = NORM;")]),
    ('f02-newline', 'bug', 'F02', [(S, "	else {\n	  cur_str.push_back(c); \n	}\n	break; \n      case SAW_PC:", "	else if(c != '\\r') {\n	  cur_str.push_back(c); \n	}\n	break; \n      case SAW_PC:")]),
    ('f02-same-index', 'same', 'F*', [(S, "for(auto c : fmt_string) {\n      switch", "for(size_t i = 0; i < fmt_string.size(); i++) {\n      char c = fmt_string[i];\n      switch")]),
    ('f02-same-flushall', 'same', 'F*', [(S, "	  if(!cur_str.empty()) {\n	    format_string_segments.push_back(FmtStringSeg(cur_str));\n	    cur_str.clear();\n	  }", "	    format_string_segments.push_back(FmtStringSeg(cur_str));\n	    cur_str.clear();\n")]),
    ('f02-same-ifs', 'same', 'F*', [(S, "	  if(c == '%') {\n	    s_state = SAW_PC;\n	  }\n	  else {\n	    s_state = NORM;\n	  }\n	  // clear the current string\n	  cur_str.clear();\n	  // and save the character\n	  if(s_state == NORM) {\n	    cur_str.push_back(c);\n	  }", "	  cur_str.clear();\n	  if(c == '%') {\n	    s_state = SAW_PC;\n	  }\n	  else {\n	    cur_str.push_back(c); s_state = NORM;\n	  }")]),
    ('f02-same-lambda', 'same', 'F*', [(S, "	  cur_fldnum = cur_fldnum * 10 + ((unsigned int) (c - '0'));", "	  unsigned int d = c - '0'; cur_fldnum *= 10; cur_fldnum += d;")]),
    # F03
    ('f03-trim', 'bug', 'F03', [(S, '	ret_string = ret_string + fld.val;', '	if(fld.val != " ") ret_string = ret_string + fld.val;')]),
    ('f03-prepend', 'bug', 'F03', [(S, '	ret_string = ret_string + fld.val;', '	ret_string = fld.val + ret_string;')]),
    ('f03-no-num', 'bug', 'F03', [(S, "	ss << '%' << fld.idx;", "	ss << '%' << fld.idx + 1;")]),
    ('f03-hexnum', 'bug', 'F03', [(S, "	ss << '%' << fld.idx;", "	ss << '%' << std::setw(2) << fld.idx;")]),
    ('f03-stop', 'bug', 'F03', [(S, "	unfilled_count++; \n", "	unfilled_count++; if(check_for_filled_out) break;\n")]),
    ('f03-rescan', 'bug', 'F03', [(S, "    cur_arg_number++;\n  }\n", "    cur_arg_number++;\n    if(s.find('%') != std::string::npos) { std::string t = str(); initialScan(t); }\n  }\n")]),
    ('f03-stream-str', 'bug', 'F03', [(S, "os << f.str(false);", 'os << f.str(false) << "\\n";')]),
    ('f03-hidden', 'bug', 'F03', [(S, "	ss << '%' << fld.idx;\n	ret_string = ret_string + ss.str();", "	if(fld.idx >= cur_arg_number) { ss << '%' << fld.idx; }\n	ret_string = ret_string + ss.str();")]),
    ('f03-same-append', 'same', 'F*', [(S, STR, '''    for(const auto & fld : format_string_segments) {
      if(fld.seg_type != FmtStringSeg::LITERAL) {
        ret_string += "%" + std::to_string(fld.idx);
        ++unfilled_count;
        continue;
      }
      ret_string += fld.val;
    }
''')]),
    ('f03-same-ss', 'same', 'F*', [(S, '''    std::string ret_string;
    // assemble the string, warts and all
''', '''    std::stringstream all;
'''), (S, STR, '''    for(const auto & fld : format_string_segments) {
      if(fld.seg_type == FmtStringSeg::LITERAL) all << fld.val;
      else { all << '%' << fld.idx; unfilled_count++; }
    }
    std::string ret_string = all.str();
''')]),
    # F04
    ('f04-no-counter', 'bug', 'F04', [(S, '    initialScan(orig_fmt_string);\n    cur_arg_number = 0; ', '    initialScan(orig_fmt_string);\n')]),
    ('f04-noclear', 'bug', 'F04', [(S, '    format_string_segments.clear();    \n', '')]),
    ('f04-early', 'bug', 'F04', [(S, '    initialScan(orig_fmt_string);\n    cur_arg_number = 0; ', '    if(cur_arg_number == 0) return *this;\n    initialScan(orig_fmt_string);\n    cur_arg_number = 0; \n    ')]),
    ('f04-early2', 'bug', 'F04', [(S, '    initialScan(orig_fmt_string);\n    cur_arg_number = 0; ', '    if(cur_arg_number > 1) initialScan(orig_fmt_string);\n    cur_arg_number = 0; \n    ')]),
    ('f04-orig', 'bug', 'F04', [(S, '    cur_arg_number++;\n  }\n', '    cur_arg_number++; orig_fmt_string = str();\n  }\n')]),
    ('f04-one-ok', 'bug', 'F04', [(S, 'if(check_for_filled_out && (unfilled_count != 0))', 'if(check_for_filled_out && (unfilled_count > 1))')]),
    ('f04-always', 'bug', 'F04', [(S, 'if(check_for_filled_out && (unfilled_count != 0))', 'if(unfilled_count != 0)')]),
    ('f04-throw-type', 'bug', 'F04', [(S, 'throw BadFormat("Unfilled argument string [" + ret_string + "]", *this);', 'throw SoDa::Exception("Unfilled argument string [" + ret_string + "]");')]),
    ('f04-last-only', 'bug', 'F04', [(S, '	ret_string = ret_string + fld.val;', '	ret_string = ret_string + fld.val; unfilled_count = 0;')]),
    ('f04-high-idx', 'bug', 'F04', [(S, 'unfilled_count++;', 'if(fld.idx < 10) unfilled_count++;')]),
    ('f04-lit-counts', 'bug', 'F04', [(S, '	ret_string = ret_string + fld.val;', '	ret_string = ret_string + fld.val; if(fld.val == "%") unfilled_count++;')]),
    ('f03-same-while', 'same', 'F*', [(S, "for(auto c : fmt_string) {\n      switch", "size_t i = 0; while(i < fmt_string.size()) {\n      const char c = fmt_string[i++];\n      switch")]),
    ('f04-bool-same', 'same', 'F*', [(S, 'int unfilled_count = 0;', 'bool unfilled = false;'), (S, 'unfilled_count++;', 'unfilled = true;'), (S, '(unfilled_count != 0)', 'unfilled')]),
    ('f04-same-order', 'same', 'F*', [(S, '    initialScan(orig_fmt_string);\n    cur_arg_number = 0; ', '    cur_arg_number = 0; \n    format_string_segments.clear();\n    initialScan(orig_fmt_string);\n')]),
    ('f04-same-nested', 'same', 'F*', [(S, '''    if(check_for_filled_out && (unfilled_count != 0)) {
      throw BadFormat("Unfilled argument string [" + ret_string + "]", *this);
    }

    return ret_string; ''', '''    if(!check_for_filled_out) return ret_string;
    if(unfilled_count > 0) {
      throw BadFormat("Unfilled argument string [" + ret_string + "]", *this);
    }
    return ret_string; ''')]),
    # F09
    ('f09-swap', 'bug', 'F09', [(H, 'Format::addI(v, width, sep, fill);', 'Format::addI(v, width, fill, sep);')]),
    ('f09-drop', 'bug', 'F09', [(H, 'Format::addF(v, fmt, width, significant_digits);', 'Format::addF(v, fmt, width);')]),
    ('f09-default', 'bug', 'F09', [(H, "T & addF(double v, char fmt = 'f', unsigned int width = 0, unsigned int significant_digits = 6)", "T & addF(double v, char fmt = 'f', unsigned int width = 0, unsigned int significant_digits = 8)")]),
    ('f09-type', 'bug', 'F09', [(H, "T & addF(double v, char", "T & addF(float v, char")]),
    ('f09-narrow', 'bug', 'F09', [(H, "      Format::addU(v, fmt, width, sep, group_count);", "      unsigned int vv = v; Format::addU(vv, fmt, width, sep, group_count);")]),
    ('f09-missing', 'bug', 'F09', [(H, '''    T & addB(bool v) {
      Format::addB(v);
      return *saved_ptr; 
    }
''', '')]),
    ('f09-wrong', 'bug', 'F09', [(H, '''    T & addB(bool v) {
      Format::addB(v);''', '''    T & addB(bool v) {
      Format::addI(v);''')]),
    ('f09-cond', 'bug', 'F09', [(H, '      Format::addS(v, width);\n', '      if(!v.empty()) Format::addS(v, width);\n')]),
    ('f09-same', 'same', 'F*', [(H, '''      Format::addB(v);
      return *saved_ptr; ''', '''      T & me = *saved_ptr;
      Format::addB(v);
      return me;''')]),
]
CASES += [
    # F05
    ('f05-addi-trunc', 'bug', 'F05', [(S, '    insertField(ss.str());     \n    return * this;', '    std::string r = ss.str(); if(w != 0 && r.size() > w) r = r.substr(0, w);\n    insertField(r);\n    return * this;')]),
    ('f05-addi-left', 'bug', 'F05', [(S, '      ss << std::setfill(fill);', '      ss << std::left << std::setfill(fill);')]),
    ('f05-fill-sep', 'bug', 'F05', [(S, '      ss << std::setfill(fill);', '      ss << std::setfill(sep ? sep : fill);')]),
    ('f05-setw-sep', 'bug', 'F05', [(S, '      if(w != 0) {\n	ss << std::setw(w);\n      }\n      ss << newstr;', '      ss << newstr;')]),
    ('f05-hex-width', 'bug', 'F05', [(S, 'ss << std::setw(width) << std::hex  << v;', 'ss << std::setw(width - 2) << std::hex  << v;')]),
    ('f05-oct-nowidth', 'bug', 'F05', [(S, 'ss << std::setw(width) << std::oct << v; ', 'ss << std::oct << v; ')]),
    ('f05-oct-int', 'bug', 'F05', [(S, 'std::string Format::toOct(unsigned long v, int width) {', 'std::string Format::toOct(unsigned long vl, int width) {\n unsigned int v = vl;')]),
    ('f05-adds-side', 'bug', 'F05', [(S, '    if(width < 0)  {\n', '    if(width < -40) { fstr = v; while(fstr.size() < (size_t)-width) fstr = \' \' + fstr; insertField(fstr); }\n else   if(width < 0)  {\n')]),
    ('f05-adds-one', 'bug', 'F05', [(S, 'int spaces = width - v.size();', 'int spaces = width - v.size() - 1;')]),
    ('f05-adds-fill', 'bug', 'F05', [(S, "      int spaces = (- width) - v.size();\n      for(int i = 0; i < spaces; i++) {\n	fstr.push_back(' ');", "      int spaces = (- width) - v.size();\n      for(int i = 0; i < spaces; i++) {\n	fstr.push_back('.');")]),
    ('f05-adds-cut', 'bug', 'F05', [(S, '      insertField(fstr);      \n', '      insertField(fstr.substr(0, -width));      \n')]),
    ('f05-adds-skip', 'bug', 'F05', [(S, "      for(auto c : v) {\n	fstr.push_back(c);\n      }\n      int spaces = (- width)", "      for(auto c : v) {\n	if(c != '\\n') fstr.push_back(c);\n      }\n      int spaces = (- width)")]),
    ('f05-adds-only-wide', 'bug', 'F05', [(S, '    else if (width > 0) {', '    else if (width > 1) {')]),
    ('f05-same-adds', 'same', 'F*', [(S, "      for(auto c : v) {\n	fstr.push_back(c);\n      }\n      int spaces = (- width)", "      fstr = v;\n      int spaces = (- width)")]),
    ('f05-same-adds2', 'same', 'F*', [(S, '''      int spaces = width - v.size();
      for(int i = 0; i < spaces; i++) {
	fstr.push_back(' ');
      }
      for(auto c : v) {
	fstr.push_back(c);
      }
''', '''      std::stringstream ss;
      ss << std::setw(width) << v;
      fstr = ss.str();
''')]),
    ('f05-same-adds3', 'same', 'F*', [(S, '''      int spaces = width - v.size();
      for(int i = 0; i < spaces; i++) {
	fstr.push_back(' ');
      }
      for(auto c : v) {
	fstr.push_back(c);
      }
''', '''      if(v.size() < (size_t) width) fstr = std::string(width - v.size(), ' ');
      fstr += v;
''')]),
    ('f05-same-addi', 'same', 'F*', [(S, '''    if(sep == '\\000') {
      if(w != 0) {
	ss << std::setw(w); 
      }
      ss << v;
    }
    else {
''', '''    ss << std::setw(w);
    if(sep == '\\000') {
      ss << v;
    }
    else {
''')]),
    # F08
    ('f08-minus', 'bug', 'F08', [(S, "if((i == 3) && (c != '-'))", "if(i == 3)")]),
    ('f08-four', 'bug', 'F08', [(S, "if((i == 3) && (c != '-'))", "if((i == 4) && (c != '-'))")]),
    ('f08-noreset', 'bug', 'F08', [(S, "	  newstr = sep + newstr;\n	  i = 0; \n	}\n	newstr = c + newstr;\n	i++;\n      }", "	  newstr = sep + newstr;\n	}\n	newstr = c + newstr;\n	i++;\n      }")]),
    ('f08-order', 'bug', 'F08', [(S, "	  newstr = sep + newstr;\n	  i = 0; \n	}\n	newstr = c + newstr;\n	i++;\n      }", "	  newstr = newstr + sep;\n	  i = 0; \n	}\n	newstr = c + newstr;\n	i++;\n      }")]),
    ('f08-hexlim', 'bug', 'F08', [(S, 'sep_lim -= 2;', 'sep_lim -= 1;')]),
    ('f08-nolim', 'bug', 'F08', [(S, '(i == group_count) && (cc < sep_lim)', '(i == group_count)')]),
    ('f08-lim-extra', 'bug', 'F08', [(S, "valstr.find_last_not_of(' ') + 1;", "valstr.find_last_not_of(' ');")]),
    ('f08-lim-more', 'bug', 'F08', [(S, "valstr.find_last_not_of(' ') + 1;", "valstr.find_last_not_of(' ') + 2;")]),
    ('f08-group3', 'bug', 'F08', [(S, '(i == group_count) && (cc < sep_lim)', '(i == 3) && (cc < sep_lim)')]),
    ('f08-skipzero', 'bug', 'F08', [(S, "	newstr = c + newstr;\n	i++; \n	cc++;", "	if(c != '0' || cc > 0) newstr = c + newstr;\n	i++; \n	cc++;")]),
    ('f08-small-nosep', 'bug', 'F08', [(S, "    if(sep == '\\000') {\n      if(w != 0) {", "    if(sep == '\\000' || (v < 0 && v > -10000)) {\n      if(w != 0) {")]),
    ('f08-hex-different', 'bug', 'F08', [(S, 'valstr = toHex(v, w, (fmt == \'X\') || (fmt == \'H\'));', 'valstr = toHex(v, w, ((fmt == \'X\') || (fmt == \'H\')) && (sep == 0));')]),
    ('f08-same-mod', 'same', 'F*', [(S, "	if((i == 3) && (c != '-')) {\n	  newstr = sep + newstr;\n	  i = 0; \n	}", "	if((i > 0) && (i % 3 == 0) && (c != '-')) {\n	  newstr = sep + newstr;\n	}")]),
    ('f08-same-append', 'same', 'F*', [(S, "	  newstr = sep + newstr;\n	  i = 0; \n	}\n	newstr = c + newstr;\n	i++;\n      }", "	  newstr.push_back(sep);\n	  i = 0; \n	}\n	newstr.push_back(c);\n	i++;\n      }\n std::reverse(newstr.begin(), newstr.end());\n")]),
    ('f08-same-digit', 'same', 'F*', [(S, "if((i == 3) && (c != '-'))", "if((i == 3) && isdigit(c))")]),
    ('f08-same-rev', 'same', 'F*', [(S, "      std::reverse(vstr.begin(), vstr.end());\n", ""), (S, "      for(auto c : vstr) {\n	if((i == 3) && (c != '-')) {", "      for(auto it = vstr.rbegin(); it != vstr.rend(); ++it) {\n	char c = *it; if((i == 3) && (c != '-')) {")]),
    ('f08-same-index', 'same', 'F*', [(S, "      for(char c : valstr) {", "      for(size_t k = 0; k < valstr.length(); ++k) {\n	char c = valstr[k];")]),
    ('f08-same-helper', 'same', 'F*', [(S, "  Format & Format::addI(", "  static std::string group3(std::string vstr, char sep) {\n      std::reverse(vstr.begin(), vstr.end());\n      std::string newstr;\n      int i = 0; \n      for(auto c : vstr) {\n	if((i == 3) && (c != '-')) {\n	  newstr = sep + newstr;\n	  i = 0; \n	}\n	newstr = c + newstr;\n	i++;\n      }\n      return newstr; }\n  Format & Format::addI("),
      (S, '''      std::reverse(vstr.begin(), vstr.end());
      
      std::string newstr;
      int i = 0; 
      for(auto c : vstr) {
	if((i == 3) && (c != '-')) {
	  newstr = sep + newstr;
	  i = 0; 
	}
	newstr = c + newstr;
	i++;
      }
''', '      std::string newstr = group3(vstr, sep);\n')]),
]
