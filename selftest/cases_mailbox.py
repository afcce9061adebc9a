M = 'include/MailBox.hxx'
MB = 'C01 M01 M02 M03 M04 M05'
LG = '      std::lock_guard<std::mutex> lock(mtx);            \n      int omit_key'
PUT = '''      for(auto & q : message_queues) {
	if(q.first != omit_key) {
	  q.second.push(msg);
	}
      }
'''
GETB = '''      if(mqueue.empty()) {
	return nullptr;
      }
      else {

	auto ret = mqueue.front();
	mqueue.pop();
	return ret;
      }
'''
MINB = '''      unsigned int ret = ~0;
      for(auto q : message_queues) {
	auto qs = q.second.size();
	ret = (ret < qs) ? ret : qs; 
      }
      return ret; 
'''
UNS = '''      std::lock_guard<std::mutex> lock(mtx);
      int subs_count = message_queues.size();       
      auto & mqueue = getQueue(subid);
      while(!mqueue.empty()) mqueue.pop();

      message_queues.erase(subid);
'''
GQ = '''      if(message_queues.count(idx) == 0) {
	throw MissingSubscriber(getName(), "get()", idx);
      }
      return message_queues[idx];       
'''
CLR = '''      auto & mqueue = getQueue(subs);
      while(!mqueue.empty()) mqueue.pop();
    }

    void unsub'''
CASES = [
    # ---- C01
    ('m-put-unlocked', 'bug', 'C01', [(M, LG, '      int omit_key')]),
    ('m-count-unlocked', 'bug', 'C01', [(M, '''      std::lock_guard<std::mutex> lock(mtx);      
      return message_queues.size();''', '      return message_queues.size();')]),
    ('m-get-split', 'bug', 'C01', [(M, '''      std::lock_guard<std::mutex> lock(mtx);	      
      auto & mqueue = getQueue(subs); 
      if(mqueue.empty()) {
	return nullptr;
      }
      else {

''', '''      std::unique_lock<std::mutex> lock(mtx);	      
      auto & mqueue = getQueue(subs); 
      if(mqueue.empty()) {
	return nullptr;
      }
      else {
        lock.unlock();
        lock.lock();
''')]),
    ('m-self-deadlock', 'bug', 'C01', [(M, '      int subs_count = message_queues.size();  ', '      int subs_count = subscriberCount();')]),
    ('m-leak-lock', 'bug', 'C01', [(M, '''      std::lock_guard<std::mutex> lock(mtx);      
      auto & mqueue = getQueue(subs);
      while(!mqueue.empty()) mqueue.pop();''', '''      mtx.lock();
      auto & mqueue = getQueue(subs);
      while(!mqueue.empty()) mqueue.pop();
      mtx.unlock();''')]),
    ('m-cross-lock', 'bug', 'C01', [(M, '	omit_key = subs->getIndex(this);', '	std::lock_guard<std::mutex> l2(subs->this_mbox->mtx); omit_key = subs->getIndex(this);')]),
    ('m-static-counter', 'bug', 'C01', [(M, '      std::lock_guard<std::mutex> lock(mtx);	      \n      unsigned int ret = ~0;', '      static unsigned int calls = 0; calls++;\n      std::lock_guard<std::mutex> lock(mtx);	      \n      unsigned int ret = ~0;')]),
    ('m-size-before-lock', 'bug', 'C01', [(M, '''      std::lock_guard<std::mutex> lock(mtx);
      int subs_count = message_queues.size();       
''', '''      int subs_count = message_queues.size();       
      std::lock_guard<std::mutex> lock(mtx);
''')]),
    ('m-lock-temp', 'bug', 'C01', [(M, '''      std::lock_guard<std::mutex> lock(mtx);	      

      Subscription''', '''      std::lock_guard<std::mutex>{mtx};

      Subscription''')]),
    # ---- M01
    ('m-put-break', 'bug', 'M01', [(M, PUT, PUT.replace('''	  q.second.push(msg);
	}''', '''	  q.second.push(msg);
	} else break;'''))]),
    ('m-put-move', 'bug', 'M01', [(M, 'q.second.push(msg);', 'q.second.push(std::move(msg));')]),
    ('m-put-copy', 'bug', 'M01', [(M, 'for(auto & q : message_queues) {\n	if', 'for(auto q : message_queues) {\n	if')]),
    ('m-put-clone', 'bug', 'M01', [(M, 'q.second.push(msg);', 'q.second.push(std::make_shared<T>(*msg));')]),
    ('m-put-less', 'bug', 'M01', [(M, 'q.first != omit_key', 'q.first < omit_key')]),
    ('m-put-twice', 'bug', 'M01', [(M, 'q.second.push(msg);', 'if(q.second.empty()) q.second.push(msg); q.second.push(msg);')]),
    ('m-put-omit-last', 'bug', 'M01', [(M, 'int omit_key = subscription_counter;', 'int omit_key = subscription_counter - 1;')]),
    ('m-put-omit-size', 'bug', 'M01', [(M, 'int omit_key = subscription_counter;', 'int omit_key = message_queues.size();')]),
    ('m-put-omit-zero', 'bug', 'M01', [(M, 'int omit_key = subscription_counter;', 'int omit_key = 0;')]),
    ('m-put-index', 'bug', 'M01', [(M, PUT, '''      for(int i = 0; i < (int) message_queues.size(); i++) {
        if(i != omit_key && message_queues.count(i)) message_queues[i].push(msg);
      }
''')]),
    ('m-put-full', 'bug', 'M01', [(M, 'q.second.push(msg);', 'if(q.second.size() < 1000000) q.second.push(msg);')]),
    ('m-put-null', 'bug', 'M01', [(M, '      int omit_key = subscription_counter; //', '      if(message_queues.size() == 1 && subs == nullptr) return;\n      int omit_key = subscription_counter; //')]),
    # ---- M02
    ('m-get-back', 'bug', 'M02', [(M, 'auto ret = mqueue.front();', 'auto ret = mqueue.back();')]),
    ('m-get-nopop', 'bug', 'M02', [(M, '	mqueue.pop();\n	return ret;', '	return ret;')]),
    ('m-get-poptwice', 'bug', 'M02', [(M, '	mqueue.pop();\n	return ret;', '	mqueue.pop(); if(ret == nullptr && !mqueue.empty()) mqueue.pop();\n	return ret;')]),
    ('m-get-copyq', 'bug', 'M02', [(M, 'auto & mqueue = getQueue(subs); \n      if(mqueue.empty()) {\n	return nullptr', 'auto mqueue = getQueue(subs); \n      if(mqueue.empty()) {\n	return nullptr')]),
    ('m-get-noempty', 'bug', 'M02', [(M, '''      if(mqueue.empty()) {
	return nullptr;
      }
      else {

''', '      {\n')]),
    ('m-get-size1', 'bug', 'M02', [(M, '''      if(mqueue.empty()) {
	return nullptr;''', '''      if(mqueue.size() <= 1) {
	return nullptr;''')]),
    ('m-get-frees', 'bug', 'M02', [(M, '	mqueue.pop();\n	return ret;', '	mqueue.pop(); if(mqueue.empty()) { for(auto & q : message_queues) if(q.second.size() > 1000) q.second.pop(); }\n	return ret;')]),
    ('m-clear-all', 'bug', 'M02', [(M, CLR, '''      getQueue(subs);
      for(auto & q : message_queues) while(!q.second.empty()) q.second.pop();
    }

    void unsub''')]),
    ('m-clear-one', 'bug', 'M02', [(M, CLR, '''      auto & mqueue = getQueue(subs);
      if(!mqueue.empty()) mqueue.pop();
    }

    void unsub''')]),
    ('m-clear-keep1', 'bug', 'M02', [(M, CLR, '''      auto & mqueue = getQueue(subs);
      while(mqueue.size() > 1) mqueue.pop();
    }

    void unsub''')]),
    ('m-clear-for', 'bug', 'M02', [(M, CLR, '''      auto & mqueue = getQueue(subs);
      for(unsigned i = 0; i < mqueue.size(); i++) mqueue.pop();
    }

    void unsub''')]),
    # ---- M03
    ('m-id-size', 'bug', 'M03', [(M, '''      Subscription ret(new SubscriptionCl(this,
					  subscription_counter));
''', '''      subscription_counter = message_queues.size();
      Subscription ret(new SubscriptionCl(this,
					  subscription_counter));
''')]),
    ('m-id-reuse', 'bug', 'M03', [(M, '      message_queues.erase(subid);\n', '      message_queues.erase(subid);\n      if(subid == subscription_counter - 1) subscription_counter--;\n')]),
    ('m-no-owner', 'bug', 'M03', [(M, '	if(mbox != this_mbox) {', '	if(mbox->getName() != this_mbox->getName()) {')]),
    ('m-no-owner-put', 'bug', 'M03', [(M, '	omit_key = subs->getIndex(this);', '	omit_key = subs->subscriber_index;')]),
    ('m-no-member-check', 'bug', 'M03', [(M, GQ, '      return message_queues[idx];\n')]),
    ('m-at', 'bug', 'M03', [(M, GQ, '      return message_queues.at(idx);\n')]),
    ('m-dtor-empty', 'bug', 'M03', [(M, '	  this_mbox->unsubscribe(subscriber_index);', '	  if(subscriber_index < 0) this_mbox->unsubscribe(subscriber_index);')]),
    ('m-dtor-throws', 'bug', 'M03', [(M, 'catch (MissingSubscriber &)', 'catch (SubscriptionMismatch &)')]),
    ('m-unsub-noerase', 'bug', 'M03', [(M, '      message_queues.erase(subid);\n', '')]),
    ('m-unsub-begin', 'bug', 'M03', [(M, '      message_queues.erase(subid);\n', '      message_queues.erase(message_queues.begin());\n')]),
    ('m-unsub-onlyempty', 'bug', 'M03', [(M, '      while(!mqueue.empty()) mqueue.pop();\n\n      message_queues.erase(subid);\n', '      if(mqueue.empty()) message_queues.erase(subid);\n')]),
    ('m-sub-notempty', 'bug', 'M03', [(M, 'message_queues[subscription_counter] = std::queue<std::shared_ptr<T>>();', 'message_queues[subscription_counter] = message_queues.empty() ? std::queue<std::shared_ptr<T>>() : message_queues.begin()->second;')]),
    ('m-sub-noadvance', 'bug', 'M03', [(M, '      subscription_counter++;\n', '      if(subscription_counter < 30000) subscription_counter++;\n')]),
    ('m-refuse-late', 'bug', 'M03', [(M, '''      auto & mqueue = getQueue(subs);
      while(!mqueue.empty()) mqueue.pop();
    }

    void unsub''', '''      auto & mq = message_queues[subs->subscriber_index];
      while(!mq.empty()) mq.pop();
      getQueue(subs);
    }

    void unsub''')]),
    # ---- M04
    ('m-ready-minus', 'bug', 'M04', [(M, '	return mqueue.size();\n', '	return mqueue.size() > 1 ? mqueue.size() - 1 : 1;\n')]),
    ('m-ready-cap', 'bug', 'M04', [(M, '	return mqueue.size();\n', '	return mqueue.size() > 65535 ? 65535 : mqueue.size();\n')]),
    ('m-min-max', 'bug', 'M04', [(M, '(ret < qs) ? ret : qs', '(ret > qs) ? ret : qs')]),
    ('m-min-zero', 'bug', 'M04', [(M, 'unsigned int ret = ~0;', 'unsigned int ret = 0;')]),
    ('m-min-skip-empty', 'bug', 'M04', [(M, 'ret = (ret < qs) ? ret : qs; ', 'if(qs != 0) ret = (ret < qs) ? ret : qs; ')]),
    ('m-min-capstart', 'bug', 'M04', [(M, 'unsigned int ret = ~0;', 'unsigned int ret = 1 << 16;')]),
    ('m-subcount-counter', 'bug', 'M04', [(M, '      return message_queues.size();\n', '      return subscription_counter;\n')]),
    ('m-ready-creates', 'bug', 'M03 M04', [(M, '      auto & mqueue = getQueue(subs); \n      if(mqueue.empty()) {\n	return 0;', '      auto & mqueue = message_queues[subs->getIndex(this)]; \n      if(mqueue.empty()) {\n	return 0;')]),
    # ---- M05
    ('m-conv-static', 'bug', 'M05', [(M, 'auto ret = std::dynamic_pointer_cast<T>(p);', 'auto ret = std::static_pointer_cast<T>(p);')]),
    ('m-conv-null-ok', 'bug', 'M05', [(M, '      if(ret == nullptr) {\n', '      if(ret == nullptr && p != nullptr) {\n')]),
    ('m-conv-null-deref', 'bug', 'M05', [(M, '(p == nullptr) ? std::string("null") : p->name', 'p->name')]),
    ('m-conv-nothrow', 'bug', 'M05', [(M, 'if(ret == nullptr) {\n	int st1', 'if(ret == nullptr && p->name.empty()) {\n	int st1')]),
    ('m-conv-exc', 'bug', 'M05', [(M, 'class BadConversion : public Exception {', 'class BadConversion : public std::runtime_error {'), (M, '''      Exception(name,
		       SoDa::Format("MailBoxBase::convert attempted to promote from %0 to %1. That isn't right.\\n")
		       .addS(from_type).addS(to_type).str())''', '''      std::runtime_error(SoDa::Format("MailBoxBase::convert attempted to promote from %0 to %1. That isn't right.\\n")
		       .addS(from_type).addS(to_type).str())''')]),
    # ---- same behaviour
    ('m-same-iter', 'same', MB, [(M, PUT, '''      for(auto it = message_queues.begin(); it != message_queues.end(); ++it) {
	if(it->first == omit_key) continue;
	it->second.push(msg);
      }
''')]),
    ('m-same-foreach', 'same', MB, [(M, PUT, '''      std::for_each(message_queues.begin(), message_queues.end(), [&](std::pair<const int, std::queue<std::shared_ptr<T>>> & q) {
	if(q.first != omit_key) q.second.push(msg);
      });
'''), (M, '#include <string>\n', '#include <string>\n#include <algorithm>\n')]),
    ('m-same-branches', 'same', MB, [(M, '      int omit_key = subscription_counter; // points past last allocted subscription id\n      if(subs != nullptr) {\n	omit_key = subs->getIndex(this);\n      }\n' + PUT, '''      if(subs) {
	const int skip = subs->getIndex(this);
	for(auto & q : message_queues) { if(q.first != skip) q.second.push(msg); }
      } else {
	for(auto & q : message_queues) q.second.push(msg);
      }
''')]),
    ('m-same-minus1', 'same', MB, [(M, 'int omit_key = subscription_counter;', 'int omit_key = -1;')]),
    ('m-same-bool', 'same', MB, [(M, '      int omit_key = subscription_counter; // points past last allocted subscription id\n      if(subs != nullptr) {\n	omit_key = subs->getIndex(this);\n      }\n' + PUT, '''      const bool omit = (subs != nullptr);
      const int own = omit ? subs->getIndex(this) : 0;
      for(auto & q : message_queues) {
        const bool mine = omit && (q.first == own);
        if(!mine) q.second.push(msg);
      }
''')]),
    ('m-same-helper', 'same', MB, [(M, PUT, '      deliver(msg, omit_key);\n'), (M, '    std::queue<std::shared_ptr<T>> & getQueue(int idx) {', '''    void deliver(const std::shared_ptr<T> & msg, int omit) {
      for(auto & q : message_queues) {
        if(q.first != omit) q.second.push(msg);
      }
    }
    std::queue<std::shared_ptr<T>> & getQueue(int idx) {''')]),
    ('m-same-find', 'same', MB, [(M, GQ, '''      auto it = message_queues.find(idx);
      if(it == message_queues.end()) {
	throw MissingSubscriber(getName(), "get()", idx);
      }
      return it->second;
''')]),
    ('m-same-get', 'same', MB, [(M, GETB, '''      std::shared_ptr<T> ret;
      if(!mqueue.empty()) {
	ret = mqueue.front();
	mqueue.pop();
      }
      return ret;
''')]),
    ('m-same-getmove', 'same', MB, [(M, 'auto ret = mqueue.front();', 'auto ret = std::move(mqueue.front());')]),
    ('m-same-clear', 'same', MB, [(M, CLR, '''      getQueue(subs) = std::queue<std::shared_ptr<T>>();
    }

    void unsub''')]),
    ('m-same-clearswap', 'same', MB, [(M, CLR, '''      std::queue<std::shared_ptr<T>> none;
      std::swap(getQueue(subs), none);
    }

    void unsub''')]),
    ('m-same-clearsize', 'same', MB, [(M, CLR, '''      auto & mqueue = getQueue(subs);
      while(mqueue.size() > 0) { mqueue.pop(); }
    }

    void unsub''')]),
    ('m-same-unsub', 'same', MB, [(M, UNS, '''      std::unique_lock<std::mutex> lock(mtx);
      getQueue(subid);
      message_queues.erase(subid);
      lock.unlock();
''')]),
    ('m-same-unsubit', 'same', MB, [(M, UNS, '''      std::lock_guard<std::mutex> lock(mtx);
      auto it = message_queues.find(subid);
      if(it == message_queues.end()) throw MissingSubscriber(getName(), "get()", subid);
      message_queues.erase(it);
''')]),
    ('m-same-sub', 'same', MB, [(M, '''      Subscription ret(new SubscriptionCl(this,
					  subscription_counter));

      message_queues[subscription_counter] = std::queue<std::shared_ptr<T>>();
      
      subscription_counter++;
      return ret;
''', '''      const int id = subscription_counter++;
      message_queues.emplace(id, std::queue<std::shared_ptr<T>>());
      return Subscription(new SubscriptionCl(this, id));
''')]),
    ('m-same-ready', 'same', MB, [(M, '''      if(mqueue.empty()) {
	return 0;
      }
      else {
	return mqueue.size();
      }
''', '      return mqueue.size();\n')]),
    ('m-same-min', 'same', MB, [(M, MINB, '''      unsigned int ret = std::numeric_limits<unsigned int>::max();
      for(const auto & q : message_queues) {
	const unsigned int n = static_cast<unsigned int>(q.second.size());
	if(n < ret) ret = n;
      }
      return ret;
'''), (M, '#include <string>\n', '#include <string>\n#include <limits>\n')]),
    ('m-same-min2', 'same', MB, [(M, '	ret = (ret < qs) ? ret : qs; \n', '	ret = std::min<size_t>(ret, qs);\n'), (M, '#include <string>\n', '#include <string>\n#include <algorithm>\n')]),
    ('m-same-uniq', 'same', MB, [(M, LG, '      std::unique_lock<std::mutex> lock(mtx);            \n      int omit_key')]),
    ('m-same-manual', 'same', MB, [(M, '''      std::lock_guard<std::mutex> lock(mtx);      
      return message_queues.size();''', '''      mtx.lock();
      unsigned int n = message_queues.size();
      mtx.unlock();
      return n;''')]),
    ('m-same-dtor', 'same', MB, [(M, '''	try {
	  this_mbox->unsubscribe(subscriber_index);
	}
	catch (MissingSubscriber &) {
	  // already gone
	}
''', '''	try {
	  this_mbox->unsubscribe(subscriber_index);
	}
	catch (MailBoxBase::Exception &) { }
''')]),
    ('m-same-conv', 'same', MB, [(M, '      if(ret == nullptr) {\n	int st1', '      if(!ret) {\n	int st1')]),
    ('m-same-conv2', 'same', MB, [(M, '''(p == nullptr) ? std::string("null") : p->name''', '''mname'''), (M, '''	int st1, st2; 
''', '''	int st1, st2; 
	std::string mname("null");
	if(p) mname = p->getName();
''')]),
    ('m-same-index', 'same', MB, [(M, '''	if(mbox != this_mbox) {
	  throw SubscriptionMismatch(mbox->getName(), this_mbox->getName()); 
	}
	else {
	  return subscriber_index; 
	}
''', '''	if(mbox == this_mbox) return subscriber_index;
	throw SubscriptionMismatch(mbox->getName(), this_mbox->getName()); 
''')]),
    ('m-same-initlist', 'same', MB, [(M, '''      SubscriptionCl(MailBox<T> * mbox, int idx) {
	this_mbox = mbox; 
	subscriber_index = idx; 
      }
''', '''      SubscriptionCl(MailBox<T> * mbox, int idx) : subscriber_index(idx), this_mbox(mbox) { }
''')]),
    ('m-same-counted', 'same', MB, [(M, PUT, '''      for(int i = 0; i < subscription_counter; i++) {
        if(i == omit_key) continue;
        auto it = message_queues.find(i);
        if(it != message_queues.end()) it->second.push(msg);
      }
''')]),
    ('m-put-counted1', 'bug', 'M01', [(M, PUT, '''      for(int i = 1; i < subscription_counter; i++) {
        if(i == omit_key) continue;
        auto it = message_queues.find(i);
        if(it != message_queues.end()) it->second.push(msg);
      }
''')]),
]
