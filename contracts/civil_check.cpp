// Exhaustive validation of the assumed contract on std::chrono::year_month_day (gv/models/ymd.py): every date of the range, by an
// independent day-by-day calendar.
#include <chrono>
#include <cstdio>
int main()
{
    using namespace std::chrono;
    long n = -12687428, cnt = 0; // -32767-01-01
    for (int y = -32767; y <= 32767; ++y)
        for (unsigned m = 1; m <= 12; ++m)
        {
            const bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
            const unsigned dim = m == 2 ? (leap ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
            for (unsigned d = 1; d <= dim; ++d, ++n, ++cnt)
            {
                const year_month_day q{year(y), month(m), day(d)};
                if (sys_days(q).time_since_epoch().count() != n || year_month_day(sys_days(days(n))) != q) { printf("MISMATCH %d-%u-%u\n", y, m, d); return 1; }
            }
        }
    printf("DATES %ld LAST %ld\n", cnt, n - 1);
    return n - 1 == 11248737 && year_month_day(sys_days(days(0))) == year_month_day(year(1970), month(1), day(1)) ? 0 : 1;
}
