// Run-time contract of the coordinate-to-index mapping (C04) on the real Indexing classes.
#include "gm.hh"
#include "geomodelgrids/utils/Indexing.hh"
#include <stdexcept>
using namespace gm;
using namespace geomodelgrids::utils;
int main(int argc, char** argv) {
    init(argc, argv);
    while (timeLeft()) {
        double dx = pick(std::vector<double>{0.1, 0.7, 1.0, 1e-3, 5000.0, rd(1e-3, 1e4)});
        IndexingUniform u(dx);
        for (int i = 0; i < 20; ++i) { double x = coin() ? ri(0, 100) * dx : rd(0, 100 * dx); scenario(fmt("uniform dx=%.17g x=%.17g", dx, x)); check(close(u.getIndex(x), x / dx), "uniform index", fmt("got %.17g", u.getIndex(x))); }
        for (double bad : {0.0, -1.0, -dx}) {
            scenario(fmt("uniform dx=%g", bad));
            bool ok = false; try { IndexingUniform w(bad); } catch (const std::invalid_argument&) { ok = true; } catch (...) {}
            check(ok, "non-positive spacing not rejected", fmt("dx=%g", bad));
        }
        bool ok = false; try { IndexingVariable w(nullptr, 3); } catch (const std::invalid_argument&) { ok = true; } catch (...) {}
        check(ok, "null coordinates not rejected", "");
        double z0 = 0; ok = false; try { IndexingVariable w(&z0, 0); } catch (const std::invalid_argument&) { ok = true; } catch (...) {}
        check(ok, "empty coordinates not rejected", "");
        int n = coin(80) ? ri(2, 9) : ri(10, 300);
        bool desc = coin();
        std::vector<double> c; double x = rd(-1e4, 1e4);
        double small = coin(20) ? 1e-5 : 1;
        for (int i = 0; i < n; ++i) { c.push_back(x); x += (desc ? -1 : 1) * rd(0.05, 30) * (coin(20) ? small : 1); }
        std::vector<double> given(c);
        if (coin(70)) std::shuffle(given.begin(), given.end(), rep().rng);
        std::vector<double> keep(given);
        IndexingVariable v(given.data(), n, desc ? IndexingVariable::DESCENDING : IndexingVariable::ASCENDING);
        check(given == keep, "supplied list changed", "");
        for (auto& g : given) g = 0;                                   // the object owns its copy
        for (int i = 0; i < n; ++i) { double d = std::fabs(c[i] - c[0]); scenario(fmt("variable n=%d desc=%d coordinate %d", n, desc, i)); double g = v.getIndex(d);
            check(std::fabs(g - i) < 1e-4, "index of a grid coordinate", fmt("got %.17g expected %d", g, i)); }
        for (int i = 0; i < 30; ++i) {
            int k = ri(0, n - 2); double t = rd(0, 1), d = std::fabs(c[k] - c[0]) + t * std::fabs(c[k + 1] - c[k]);
            if (d > std::fabs(c[n - 1] - c[0])) continue;
            scenario(fmt("variable n=%d desc=%d between %d and %d t=%g", n, desc, k, k + 1, t));
            double g = v.getIndex(d);
            check(std::fabs(g - (k + t)) < 1e-4, "index between coordinates is not linear", fmt("got %.17g expected %.17g", g, k + t));
        }
    }
    return finish();
}
