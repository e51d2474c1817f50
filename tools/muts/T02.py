f='am-mutex.h'
M=[
('V',f,'       std::mutex::lock();\n       owner_ = std::this_thread::get_id();','       owner_ = std::this_thread::get_id();\n       std::mutex::lock();'),
('V',f,'       owner_ = {};\n       std::mutex::unlock();','       std::mutex::unlock();\n       owner_ = {};'),
('V',f,'       owner_ = {};\n',''),
('V',f,'       std::mutex::unlock();\n',''),
('V',f,'           return false;\n       owner_ = std::this_thread::get_id();','           return false;'),
('V',f,'assert(owner_ == std::this_thread::get_id());','assert(owner_ != std::thread::id());'),
('V',f,'assert(owner_ == std::this_thread::get_id());','assert(owner_ == std::this_thread::get_id() || owner_ == std::thread::id());'),
('V',f,'       if (!std::mutex::try_lock())\n           return false;\n       owner_ = std::this_thread::get_id();\n       return true;','       owner_ = std::this_thread::get_id();\n       return std::mutex::try_lock();'),
('V',f,'       if (!std::mutex::try_lock())\n           return false;','       if (!std::mutex::try_lock())\n           std::mutex::lock();') ,
('V',f,'    std::thread::id owner_ = {};','    std::thread::id owner_ = std::this_thread::get_id();'),
('V',f,'       std::mutex::lock();\n','       if (!std::mutex::try_lock()) return;\n'),
('Q',f,'       std::mutex::lock();\n','       while (!std::mutex::try_lock()) std::mutex::lock();\n') if False else
('Q',f,'       owner_ = {};\n','       AssertCurrentThreadOwns();\n       owner_ = {};\n'),
('Q',f,'    void AssertCurrentThreadOwns() {\n        assert(','    void AssertCurrentThreadOwns() {\n        auto self = std::this_thread::get_id();\n        bool mine = owner_ == self;\n        (void)mine;\n        assert('),
('Q',f,'       if (!std::mutex::try_lock())\n           return false;\n       owner_ = std::this_thread::get_id();\n       return true;','       bool got = std::mutex::try_lock();\n       if (got)\n           owner_ = std::this_thread::get_id();\n       return got;'),
('Q',f,'       owner_ = {};\n','       owner_ = std::thread::id();\n'),
]
