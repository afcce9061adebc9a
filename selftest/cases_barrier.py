B = 'src/Barrier.cxx'
ALL = 'B01 B02 C01'
WAITFOR = '''	bool is_ok = cv.wait_for(lock, 
				 timeout,
				 [old_barrier_count, this]() {
				   return (old_barrier_count != barrier_count) || corrupted; 
				 });
'''
CASES = [
    ('b-unlocked-snapshot', 'bug', 'B01 C01', [(B, '''    // bump the waiting count
    {
      std::unique_lock<std::mutex> lock(mtx);
      auto old_barrier_count = barrier_count; ''', '''    auto old_barrier_count = barrier_count;
    {
      std::unique_lock<std::mutex> lock(mtx);''')]),
    ('b-no-predicate', 'bug', 'B01', [(B, WAITFOR, '''	bool is_ok = cv.wait_for(lock, timeout) == std::cv_status::no_timeout;
''')]),
    ('b-snapshot-after-unlock', 'bug', 'B01', [(B, '''      waiting++; 
''', '''      waiting++; lock.unlock(); lock.lock();
''')]),
    ('b-notify-one', 'bug', 'B01', [(B, 'cv.notify_all();', 'cv.notify_one();')]),
    ('b-no-reset-waiting', 'bug', 'B01', [(B, '	waiting = 0;\n', '')]),
    ('b-waiter-decrements', 'bug', 'B01', [(B, '''	else if(corrupted) {''', '''	else { waiting--; } if(corrupted) {''')]),
    ('b-pred-ge', 'bug', 'B01', [(B, 'return (old_barrier_count != barrier_count) || corrupted; ', 'return (old_barrier_count <= barrier_count) || corrupted; ')]),
    ('b-geq', 'bug', 'B01', [(B, 'if(waiting == num_waiters)', 'if(waiting + 1 >= num_waiters)')]),
    ('b-late-arrival', 'bug', 'B02', [(B, '''      if(corrupted) {
	throw Barrier::Corrupt(*this);
      }
      
      waiting++''', '      waiting++')]),
    ('b-waiter-not-told', 'bug', 'B02', [(B, '''	else if(corrupted) {
	  // someone else timed out and woke us up. 
	  throw Barrier::Corrupt(*this);
	}
''', '')]),
    ('b-timeout-not-marked', 'bug', 'B02', [(B, '	    corrupted = true; \n', '')]),
    ('b-timeout-no-wake', 'bug', 'B02', [(B, '''	    cv.notify_all();
	    throw''', '	    throw')]),
    ('b-redundant-check', 'same', ALL, [(B, '''	  if(old_corrupt) {
	    throw Barrier::Corrupt(*this);
	  }
	  else {''', '	  {')]),
    ('b-zero', 'bug', 'B02', [(B, 'wait(std::chrono::seconds(3600 * 24 * 1000));\n    }\n    else', 'wait(std::chrono::seconds(3600 * 24 * 10));\n    }\n    else')]),
    ('b-zero-dur', 'bug', 'B02', [(B, '''    if(timeout.count() == 0) {
      return wait(std::chrono::seconds(3600 * 24 * 1000));
    }
''', '')]),
    ('b-micro', 'bug', 'B02', [(B, 'wait(std::chrono::milliseconds(timeout_ms));', 'wait(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::microseconds(timeout_ms)));')]),
    ('b-seconds', 'bug', 'B02', [(B, 'wait(std::chrono::milliseconds(timeout_ms));', 'wait(std::chrono::seconds(timeout_ms));')]),
    ('b-return-on-timeout', 'bug', 'B01 B02', [(B, '	    throw Barrier::Timeout(*this, timeout);', '	    if(timeout.count() > 100000) return; throw Barrier::Timeout(*this, timeout);')]),
    ('b-corrupt-cleared', 'bug', 'B02', [(B, '	barrier_count++; //', '	corrupted = false; barrier_count++; //')]),
    ('b-throw-after-release', 'same', ALL, [(B, '''	waiting = 0;
	barrier_count++; // we've all cleared another barrier
	cv.notify_all();''', '''	barrier_count += 1;
	waiting = 0;
	cv.notify_all();
	return;''')]),
    ('b-loop', 'same', ALL, [(B, WAITFOR, '''	bool is_ok = true;
	auto deadline = std::chrono::steady_clock::now() + timeout;
	while((old_barrier_count == barrier_count) && !corrupted) {
	  if(cv.wait_until(lock, deadline) == std::cv_status::timeout) {
	    is_ok = (old_barrier_count != barrier_count) || corrupted;
	    break;
	  }
	}
''')]),
    ('b-loop2', 'same', ALL, [(B, WAITFOR, '''	bool is_ok = true;
	while(is_ok && !((old_barrier_count != barrier_count) || corrupted)) {
	  auto st = cv.wait_for(lock, timeout);
	  if(st == std::cv_status::timeout) is_ok = (old_barrier_count != barrier_count) || corrupted;
	}
''')]),
    ('b-helper', 'same', ALL, [
        (B, '''	// reset -- nobody will be waiting anymore
	waiting = 0;
	barrier_count++; // we've all cleared another barrier
	cv.notify_all();''', '	releaseAll();'),
        (B, '''  void Barrier::wait(unsigned long timeout_ms) {''', '''  void Barrier::releaseAll() {
    waiting = 0;
    ++barrier_count;
    cv.notify_all();
  }

  void Barrier::wait(unsigned long timeout_ms) {'''),
        ('include/Barrier.hxx', '    unsigned int waiting;', '    void releaseAll();\n    unsigned int waiting;')]),
    ('b-inverted', 'same', ALL, [(B, '''      if(waiting == num_waiters) {
	// reset -- nobody will be waiting anymore
	waiting = 0;
	barrier_count++; // we've all cleared another barrier
	cv.notify_all();
      }
      else {''', '''      const bool last = !(num_waiters != waiting);
      if(last) {
	// reset -- nobody will be waiting anymore
	waiting = 0;
	barrier_count++; // we've all cleared another barrier
	cv.notify_all();
      }
      if(!last) {''')]),
    ('b-named-constant', 'same', ALL, [(B, '''namespace SoDa {
''', '''namespace SoDa {
  static const std::chrono::seconds forever(3600L * 24 * 1000);
'''), (B, 'return wait(std::chrono::seconds(3600 * 24 * 1000));', 'return wait(forever);')]),
    ('b-pred-named', 'same', ALL, [(B, WAITFOR, '''	auto done = [&]() { if(corrupted) return true; return old_barrier_count != barrier_count; };
	bool is_ok = cv.wait_for(lock, timeout, done);
''')]),
    ('b-demorgan', 'same', ALL, [(B, 'return (old_barrier_count != barrier_count) || corrupted; ', 'return !(old_barrier_count == barrier_count && !corrupted); ')]),
    ('b-nested-else', 'same', ALL, [(B, '''	if (!is_ok) {''', '''	if (is_ok) { if(corrupted) { throw Barrier::Corrupt(*this); } return; }
	if (!is_ok) {''')]),
    ('b-scratch', 'same', ALL, [(B, '      waiting++; \n', '      const unsigned int arrived = waiting + 1;\n      waiting = arrived;\n'), (B, 'waiting == num_waiters', 'arrived == num_waiters')]),
]
