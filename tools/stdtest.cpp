#include "lib.h"
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <sstream>
#include <iomanip>
#include <functional>
#include <optional>
#include <variant>
#include <array>
#include <deque>
#include <list>
#include <queue>
#include <stack>
#include <algorithm>
#include <numeric>
#include <string_view>
#include <charconv>
#include <memory>
#include <bitset>
#include <tuple>
#include <regex>
#include <iterator>
#include <cmath>
#include <cstdarg>
#include <mutex>
#include <chrono>
static std::string two() { std::string s; for (int i = 0; i < 2; i++) s += (char)sym_u64("c", '0', '9'); return s; }
static int fmtv(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
extern "C" void a_map() { std::map<std::string,int> m; m["b"] = 1; m[two()] = 2; m["a"] = 3; int s = 0; for (auto& [k, v] : m) s = s * 10 + v; sym_assert(s > 10, "x"); m.erase("a"); sym_assert(m.count("a") == 0, "y"); std::set<uint32_t> st{3, 1, 2}; st.insert((uint32_t)sym_u64("k", 0, 5)); sym_assert(st.size() >= 3, "z"); }
extern "C" void a_umap() { std::unordered_map<std::string,int> m; m["b"] = 1; m[two()] = 2; m["a"] = 3; int s = 0; for (auto& [k, v] : m) s += v; sym_assert(s == 6, "x"); std::unordered_set<uint64_t> u; for (int i = 0; i < 40; i++) u.insert(i * 7); u.insert(sym_u64("k", 0, 3)); sym_assert(u.size() >= 40, "z"); }
extern "C" void a_sstream() { std::ostringstream o; o << "a" << std::hex << std::uppercase << std::setw(4) << std::setfill('0') << 255 << std::dec << two() << 1.5 << std::fixed << std::setprecision(3) << 2.25; sym_assert(o.str().substr(0, 5) == "a00FF", "x"); std::istringstream i(two() + " 12 x"); int a, b; std::string w; i >> a >> b >> w; sym_assert(b == 12 && w == "x", "y"); std::stringstream ss("a,b,c"); int n = 0; while (std::getline(ss, w, ',')) n++; sym_assert(n == 3, "g"); }
extern "C" void a_func() { std::function<int(int)> f = [](int x) { return x + 1; }; std::optional<int> o; if (sym_u64("k", 0, 1)) o = 3; sym_assert(!o || f(*o) == 4, "x"); std::variant<int, std::string> v = two(); sym_assert(std::get<std::string>(v).size() == 2, "v"); }
extern "C" void a_cont() { std::deque<int> d; d.push_back(1); d.push_front(2); std::list<std::string> l{"a", two()}; l.sort(); std::queue<int> q; q.push(1); std::stack<int> s; s.push(2); std::array<int, 3> a{3, 1, 2}; std::sort(a.begin(), a.end()); std::vector<uint32_t> v{5, (uint32_t)sym_u64("k", 0, 9), 1}; std::stable_sort(v.begin(), v.end()); sym_assert(v[0] <= v[1] && v[1] <= v[2], "s"); sym_assert(std::accumulate(v.begin(), v.end(), 0u) >= 6, "acc"); std::priority_queue<int> pq; pq.push(1); pq.push(5); sym_assert(pq.top() == 5, "pq"); std::vector<bool> vb(70); vb[69] = true; std::bitset<64> bs; bs.set(3); sym_assert(bs.count() == 1 && vb[69], "b"); }
extern "C" void a_conv() { std::string t = two(); sym_assert(std::stoi(t) < 100, "a"); sym_assert(std::stoul(t) < 100, "b"); sym_assert(std::stod(t) < 100, "c"); sym_assert(std::to_string(12) == "12", "d"); int v = 0; std::from_chars(t.data(), t.data() + 2, v); sym_assert(v < 100, "e"); char b[16]; auto r = std::to_chars(b, b + 16, v); sym_assert(r.ptr > b, "f"); sym_assert(atoi(t.c_str()) == v, "g"); sym_assert(std::stoll(t) == v, "h"); sym_assert(std::stoull("1f", nullptr, 16) == 31, "i"); sscanf(t.c_str(), "%d", &v); sym_assert(v < 100, "j"); try { std::stoi("x"); } catch (std::exception&) { sym_cover("ex"); } try { (void)std::stoi("x" + t); } catch (...) { } }
extern "C" void a_scanf() { std::string t = two(); unsigned a = 0; char w[10]; int n = sscanf(("BO_ " + t + " abc").c_str(), "BO_ %u %9s", &a, w); sym_assert(n == 2 && a < 100, "n"); }
extern "C" void a_cstr() { std::string t = "a," + two() + ",b"; char b[32]; strcpy(b, t.c_str()); int n = 0; for (char* p = strtok(b, ","); p; p = strtok(nullptr, ",")) n++; sym_assert(n == 3, "n"); sym_assert(strstr(t.c_str(), ",b") != nullptr, "s"); sym_assert(strrchr(t.c_str(), ',') != nullptr, "r"); sym_assert(strcasecmp("aB", "Ab") == 0, "c"); sym_assert(strpbrk(t.c_str(), ",") != nullptr, "p"); sym_assert(strspn("aab", "a") == 2 && strcspn("aab", "b") == 2, "q"); char* e = strdup("x"); free(e); strncat(b, "x", 1); }
extern "C" void a_regex() { std::regex r("([a-z]+)([0-9]+)"); std::smatch m; std::string t = "abc" + two(); sym_assert(std::regex_match(t, m, r), "m"); sym_assert(m[2].str().size() == 2, "s"); sym_assert(std::regex_replace(t, std::regex("[0-9]"), "x") == "abcxx", "r"); int n = 0; std::regex rz("[a-z]"); for (std::sregex_iterator i(t.begin(), t.end(), rz), e; i != e; ++i) n++; sym_assert(n == 3, "it"); sym_assert(std::regex_search(t, m, std::regex("c\\d")), "se"); sym_assert(std::regex_match("ABC", std::regex("abc", std::regex::icase)), "ic"); }
extern "C" void a_str() { std::string t = "ab" + two() + "cd"; sym_assert(t.find("cd") == 4, "f"); sym_assert(t.rfind('c') == 4, "r"); sym_assert(t.find_first_of("0123456789") == 2, "ffo"); sym_assert(t.find_last_not_of("cd") == 3, "fln"); t.erase(2, 2); t.insert(1, "x"); t.replace(0, 1, "yy"); sym_assert(t == "yyxbcd", "e"); std::string_view v = t; sym_assert(v.substr(2) == "xbcd", "v"); t.resize(2); t.append(3, 'z'); std::transform(t.begin(), t.end(), t.begin(), ::toupper); sym_assert(t == "YYZZZ", "t"); t.erase(std::remove(t.begin(), t.end(), 'Y'), t.end()); sym_assert(t.size() == 3, "rm"); sym_assert(t.compare(0, 2, "ZZ") == 0, "cmp"); t.pop_back(); std::reverse(t.begin(), t.end()); }
extern "C" void a_ptr() { auto p = std::make_shared<std::string>(two()); std::weak_ptr<std::string> w = p; auto q = std::make_unique<int>(3); sym_assert(!w.expired() && *q == 3, "p"); std::vector<std::unique_ptr<int>> v; v.push_back(std::move(q)); auto t = std::make_tuple(1, two()); sym_assert(std::get<0>(t) == 1, "t"); static std::once_flag f; }
extern "C" void a_algo() { std::vector<std::string> v{"b", two(), "a"}; std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a > b; }); sym_assert(v[0] == "b", "s"); auto it = std::find_if(v.begin(), v.end(), [](auto& s) { return s == "a"; }); sym_assert(it != v.end(), "f"); v.erase(std::unique(v.begin(), v.end()), v.end()); sym_assert(std::any_of(v.begin(), v.end(), [](auto& s) { return s.size() == 2; }), "a"); sym_assert(std::count(v.begin(), v.end(), "a") == 1, "c"); std::rotate(v.begin(), v.begin() + 1, v.end()); std::partial_sort(v.begin(), v.begin() + 1, v.end()); std::nth_element(v.begin(), v.begin() + 1, v.end()); auto [mn, mx] = std::minmax_element(v.begin(), v.end()); sym_assert(*mn <= *mx, "mm"); std::make_heap(v.begin(), v.end()); std::lower_bound(v.begin(), v.end(), std::string("a")); }
extern "C" void a_math() { double d = (double)sym_u64("k", 0, 100); sym_assert(std::floor(d / 2) <= d, "f"); sym_assert(std::fabs(-d) == d, "a"); double ip; sym_assert(std::modf(2.5, &ip) == 0.5, "m"); sym_assert(std::pow(10.0, 3) == 1000, "p"); sym_assert(std::isnan(d) == false && std::isfinite(d), "n"); sym_assert(std::lround(2.5) == 3, "l"); sym_assert(std::log2(8.0) == 3, "lg"); sym_assert(std::trunc(d) == d, "t"); }
extern "C" void a_io() { std::ofstream o("f.txt"); o << "a\n" << two() << std::endl; o.close(); std::ifstream i("f.txt"); std::string l; int n = 0; while (std::getline(i, l)) n++; sym_assert(n == 2, "n"); std::ifstream j("f.txt"); std::string all((std::istreambuf_iterator<char>(j)), std::istreambuf_iterator<char>()); sym_assert(all.size() == 5, "all"); std::cout << "x"; std::cerr << "y" << std::endl; FILE* f = fopen("f.txt", "r"); if (f) { char b[10]; if (fgets(b, 10, f)) sym_assert(b[0] == 'a', "fg"); fclose(f); } std::stringstream ss; ss << std::ifstream("f.txt").rdbuf(); sym_assert(ss.str() == all, "rb"); }
extern "C" void a_fs() { std::filesystem::create_directories("a/b"); std::ofstream("a/b/f") << "x"; int n = 0; for (auto& e : std::filesystem::directory_iterator("a/b")) { (void)e; n++; } sym_assert(n == 1, "it"); std::filesystem::path p = "a"; p /= "b"; sym_assert(p.string() == "a/b" && p.filename() == "b", "p"); sym_assert(std::filesystem::exists(p) && std::filesystem::is_directory(p), "ex"); sym_assert(p.parent_path() == "a", "pp"); sym_assert(std::filesystem::path("x.dbc").extension() == ".dbc", "ext"); std::filesystem::remove_all("a"); }
extern "C" void a_fmt() { char b[64]; std::string t = two(); int n = fmtv(b, 64, "%-5s|%05d|%x|%%|%c|%.2f|%lu|%*d|%.3s", t.c_str(), 42, 255, 'c', 1.25, 7ul, 4, 3, "abcdef"); sym_assert(n > 10 && strlen(b) == (size_t)n, "n"); sym_assert(fmtv(b, 64, "%s%g", t.c_str(), 1e10) > 2, "g"); snprintf(b, 64, "%08llX %+d %#x %lld %zu %p", 5ull, 3, 7, -1ll, (size_t)3, (void*)0); }
extern "C" void a_vec() { std::vector<std::pair<uint32_t, std::string>> v; for (int i = 0; i < 20; i++) v.emplace_back(i, two().substr(0, 1)); std::vector<std::vector<int>> w(3, std::vector<int>(4)); w[1][2] = 3; sym_assert(w[1][2] == 3, "w"); v.insert(v.begin() + 3, {7u, "x"}); sym_assert(v.size() == 21, "v"); try { (void)v.at(30); } catch (std::out_of_range&) { sym_cover("at"); } std::string s = "x"; try { s.substr(5); } catch (std::out_of_range&) { sym_cover("sub"); } }
struct Base { virtual ~Base() {} virtual int f() { return 1; } }; struct Der : Base { int f() override { return 2; } };
extern "C" void a_rtti() { std::unique_ptr<Base> p; if (sym_u64("k", 0, 1)) p = std::make_unique<Der>(); else p = std::make_unique<Base>(); Der* d = dynamic_cast<Der*>(p.get()); sym_assert((d != nullptr) == (p->f() == 2), "d"); static std::map<int, int> cache; cache[1] = 2; static std::string st = "abc" + std::to_string(cache.size()); sym_assert(st == "abc1", "st"); thread_local int tl = 3; tl++; sym_assert(tl == 4, "tl"); auto t = std::chrono::system_clock::now(); (void)t; static std::mutex m; std::lock_guard<std::mutex> g(m); }
extern "C" void harness() {}
