"""rules added late: one lock per field, moved-from fields, removed elements, whole error texts, deleters, counts"""
M = 'include/MailBox.hxx'
P = 'src/PropertyTree.cxx'
PH = 'include/PropertyTree.hxx'
O = 'src/Options.cxx'
OH = 'include/Options.hxx'
F = 'src/Format.cxx'
S = 'src/Split.cxx'
U = 'src/UtilsBase.cxx'
COUNT = '    int subscription_counter; \n'
MIN = 'std::lock_guard<std::mutex> lock(mtx);	      \n      unsigned int ret = ~0;'
CASES = [
    ('c01-own-mutex', 'bug', 'C01', [(M, MIN, MIN.replace('(mtx)', '(other)')), (M, COUNT, COUNT + '    std::mutex other;\n')]),
    ('c01-try-lock', 'bug', 'C01', [(M, MIN, MIN.replace('lock_guard', 'unique_lock').replace('(mtx)', '(mtx, std::try_to_lock)'))]),
    ('c01-unique', 'same', 'C01 M04', [(M, MIN, MIN.replace('lock_guard', 'unique_lock'))]),
    ('c01-defer', 'same', 'C01 M04', [(M, MIN, MIN.replace('lock_guard', 'unique_lock').replace('(mtx);', '(mtx, std::defer_lock); lock.lock();'))]),
    ('c01-two-mutexes', 'same', 'C01 M04 R01', [(M, MIN, MIN.replace('unsigned int ret', 'std::lock_guard<std::mutex> lock2(other);\n      unsigned int ret')), (M, COUNT, COUNT + '    std::mutex other;\n')]),
    ('t05-moved-list', 'bug', 'T05', [(P, 'return prop_list; ', 'return std::move(prop_list); ')]),
    ('t05-copy-moved', 'same', 'T05', [(P, 'return prop_list; ', 'std::list<PropNode *> r = prop_list; return std::move(r); ')]),
    ('t05-static-keys', 'bug', 'T05', [(P, 'std::list<std::string> keys; ', 'static std::list<std::string> keys; ')]),
    ('t05-static-cleared', 'same', 'T05', [(P, 'std::list<std::string> keys; ', 'static std::list<std::string> keys; keys.clear(); ')]),
    ('t03-squashed', 'bug', 'T03 T04', [(P, 'val_string(val_string), is_terminal', 'val_string(SoDa::squashSpaces(val_string)), is_terminal')]),
    ('t03-in-body', 'same', 'T02 T03 T04 T05', [(P, 'parent(parent), val_string(val_string), is_terminal(is_terminal)\n  {', 'parent(parent), is_terminal(is_terminal)\n  {\n    this->val_string.append(val_string);')]),
    ('m02-moved-front', 'same', 'M02 C01 R01', [(M, 'auto ret = mqueue.front();', 'auto ret = std::move(mqueue.front());')]),
    ('m02-dangling', 'bug', 'G01', [(M, 'auto ret = mqueue.front();', 'auto & ret = mqueue.front();')]),
    ('g01-token-ref', 'bug', 'G01', [(O, 'std::string tkn = tokens.front();', 'const std::string & tkn = tokens.front();')]),
    ('g01-token-late', 'same', 'G01 O05 O01', [(O, 'std::string tkn = tokens.front();', 'const std::string & head = tokens.front();\n      std::string tkn = head;')]),
    ('o03-null-entry', 'bug', 'O03', [(O, 'if(ab_map.find(ab_name) == ab_map.end()) {\n      return nullptr;', 'if(ab_map.find(ab_name) == ab_map.end() && !isalpha(ab_name)) {\n      return nullptr;')]),
    ('o03-at', 'same', 'O01 O03 O08', [(O, 'return ab_map[ab_name];\n', 'return ab_map.at(ab_name);\n')]),
    ('f03-signed-number', 'bug', 'F03', [(F, "ss << '%' << fld.idx;", "ss << '%' << (int) fld.idx;")]),
    ('f03-long-number', 'same', 'F03', [(F, "ss << '%' << fld.idx;", "ss << '%' << (long) fld.idx;")]),
    ('f05-unsigned-count', 'bug', 'F05 F06', [(F, 'int spaces = (- width) - v.size();', 'unsigned spaces = (- width) - v.size();')]),
    ('f05-too-many', 'bug', 'F05', [(F, 'int spaces = (- width) - v.size();', 'int spaces = (- width) - v.size() + 1;')]),
    ('f05-guarded', 'same', 'F05 F06', [(F, 'int spaces = (- width) - v.size();', 'unsigned spaces = (v.size() < (unsigned)(- width)) ? (- width) - v.size() : 0;')]),
    ('f06-limit', 'bug', 'F06', [(F, 'else if (std::isinf(v)) {', 'else if (v > std::numeric_limits<double>::max()) {'), (F, '#include <cmath>', '#include <cmath>\n#include <limits>')]),
    ('f06-limits', 'same', 'F06 F07', [(F, 'else if (std::isinf(v)) {', 'else if (v > std::numeric_limits<double>::max() || v < -std::numeric_limits<double>::max()) {'), (F, '#include <cmath>', '#include <cmath>\n#include <limits>')]),
    ('f08-mod', 'same', 'F08', [(F, 'if((i == group_count) && (cc < sep_lim)) {', 'if(cc && (cc % group_count == 0) && (cc < sep_lim)) {')]),
    ('f08-mod-wrong', 'bug', 'F08', [(F, 'if((i == group_count) && (cc < sep_lim)) {', 'if(cc && (cc % (group_count + 1) == 0) && (cc < sep_lim)) {')]),
    ('f08-mod-last', 'bug', 'F08', [(F, 'if((i == group_count) && (cc < sep_lim)) {', 'if(cc && (cc % group_count == 0) && (cc < sep_lim - 1)) {')]),
    ('e02-twice', 'bug', 'E02', [(M, '.addS(from_type).addS(to_type).str()', '.addS(from_type).addS(from_type).str()')]),
    ('e02-named', 'same', 'E02 E01', [(M, '.addS(from_type).addS(to_type).str()', '.addS(std::string(from_type)).addS(to_type).str()')]),
    ('r01-no-free', 'bug', 'R01', [(M, 'nullptr, nullptr, &st1), std::free);', 'nullptr, nullptr, &st1), [](void *) { });')]),
    ('r01-free-call', 'same', 'R01', [(M, 'nullptr, nullptr, &st1), std::free);', 'nullptr, nullptr, &st1), [](void * q) { std::free(q); });')]),
    ('r01-released', 'bug', 'R01', [(M, 'from_type.get(), to_type.get()', 'from_type.release(), to_type.get()')]),
    ('r01-static-nodes', 'bug', 'R01', [(P, '    nodes->push_back(ret);', '    static std::list<std::shared_ptr<PropNode>> all; all.push_back(ret);\n    nodes->push_back(ret);')]),
    ('m03-range-erase', 'bug', 'M03', [(M, 'message_queues.erase(subid);', 'message_queues.erase(message_queues.find(subid), message_queues.end());')]),
    ('m03-iter-erase', 'same', 'M02 M03', [(M, 'message_queues.erase(subid);', 'message_queues.erase(message_queues.find(subid));')]),
    ('m04-narrow', 'bug', 'M04', [(M, 'auto qs = q.second.size();', 'auto qs = (unsigned short) q.second.size();')]),
    ('m04-int', 'same', 'M04', [(M, 'auto qs = q.second.size();', 'unsigned int qs = q.second.size();')]),
]
