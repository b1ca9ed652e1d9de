#include "common.hpp"
#include "flut/filter.hpp"
#include "flut/math/delayer.hpp"
PROPERTY( "C31", "sample streams of up to 200 values (and time steps), in a third of the cases scaled by a power of two, through filters with cutoff ratios of 0.01 to 0.45, sinusoids of every frequency, delay lines of 2 to 16 windows and sample steps of a fraction of a window. Non-trivial: at least ten samples that are not all equal." )
using std::vector;

LAW( filter_linear_system, 180000 )
{
	double fc = g.real( 0.01, 0.45 ); auto f = flut::make_lowpass_butterworth_2nd_order( fc ), h = f, z = f, c = f; CHECK_EQ( z(), 0.0 ); vector< double > x, y; double k = g.real( 5 ), sum = 0; size_t lag = g.below( 20 ), n = 0; Seq q( g, 200 ); auto imp = f, late = f, loud = f; const double sc = pow2( g, -40, 40 ); vector< double > resp;
	for ( size_t i = 0; i < lag; ++i ) CHECK_EQ( late( 0.0 ), 0.0 ); // silence in, silence out
	while ( q.more() ) {
		double v = g.real( 100 ), w = g.real( 100 ); if ( g.below( 8 ) == 0 ) { auto p0 = f, p1 = f; double s0 = p0( 0.0 ); v = s0 / ( 1 - ( p1( 1.0 ) - s0 ) ); } /* an input that equals the output */ x.push_back( v ); resp.push_back( imp( n == 0 ? 1.0 : 0.0 ) ); double a = f( v ), b = h( w ), s = z( v + k * w ), prev = y.empty() ? 0 : y.back(); y.push_back( a ); CHECK_EQ( f(), a ); CHECK_CLOSE( s, a + k * b, 1e-9, 1e-9 ); // superposition
		CHECK_CLOSE( loud( sc * v ), sc * a, 1e-9, 1e-9 * sc ); CHECK_CLOSE( late( v ), a, 1e-12, 1e-12 ); CHECK_CLOSE( f.velocity(), a - prev, 1e-12, 1e-14 * ( std::abs( a ) + std::abs( prev ) ) ); CHECK_EQ( c( v ), a ); sum = 0; for ( size_t i = 0; i <= n; ++i ) sum += resp[ i ] * x[ n - i ]; CHECK_CLOSE( a, sum, 1e-8, 1e-8 ); ++n; // convolution with the impulse response
	}
	g.note( "cutoff", fc ).note( "samples", n ); g.nontrivial( n >= 10 );
}

LAW( butterworth_response, 180000 )
{
	double fc = g.real( 0.02, 0.45 ), fr = g.chance( 1, 6 ) ? fc : g.chance( 1, 6 ) ? 0 : g.real( 0.001, 0.49 ); g.note( "cutoff", fc ).note( "frequency", fr ); g.nontrivial( fr > 0 && fr != fc );
	// transfer function from the impulse response (long enough for the slowest cutoff)
	auto f = flut::make_lowpass_butterworth_2nd_order( fc ); size_t n = (size_t)std::min( 3000.0, 20 / fc + 60 ); double re = 0, im = 0; for ( size_t i = 0; i < n; ++i ) { double r = f( i == 0 ? 1.0 : 0.0 ), a = 2 * M_PI * fr * i; re += r * std::cos( a ); im -= r * std::sin( a ); }
	double t = std::tan( M_PI * fr ) / std::tan( M_PI * fc ), want = 1 / std::sqrt( 1 + t * t * t * t ); CHECK_CLOSE( std::sqrt( re * re + im * im ), want, 0, 1e-6 ); if ( fr == fc ) CHECK_CLOSE( want, std::sqrt( 0.5 ), 0, 1e-9 );
	auto d = flut::make_lowpass_butterworth_2nd_order( fc ); double v = g.real( 100 ), last = 0; for ( size_t i = 0; i < n; ++i ) last = d( v ); CHECK_CLOSE( last, v, 1e-6, 1e-9 ); // settles on a constant
	auto ff = flut::make_lowpass_butterworth_2nd_order( (float)fc ); float lf = 0; for ( size_t i = 0; i < n; ++i ) lf = ff( (float)v ); CHECK_CLOSE( lf, v, 2e-2, 1e-4 );
}

// Delay lines: sampled with a step that divides the window, a signal comes out delayed
template< template< typename, int > class D, int N > static void delays( Gen& g, bool smooth ) {
	float delay = (float)g.positive( 0.05, 2 ); double window = smooth ? delay / ( N - 0.5 ) : delay / ( N - 1.0 ); int sub = g.i( 3, 20 ); float dt = float( window / ( sub + g.real( 0, 0.5 ) ) ); double init = g.coin() ? 0 : g.real( 10 ), c = g.real( 10 ), m = g.real( 5 ); g.note( "windows", N ).note( "delay", delay ).note( "dt", dt ).note( "init", init ).note( "smooth", smooth ); g.nontrivial( true );
	D< double, N > cst( delay, c ), ini( delay, init ), ramp( delay, 0.0 ), any( delay, init ); CHECK_CLOSE( ini(), init, 1e-9, 1e-9 ); CHECK_CLOSE( cst.delayed_value(), c, 1e-9, 1e-9 );
	double t = 0, lo = init, hi = init; int n = sub * ( N + 3 ) + 5; size_t changed = 0;
	for ( int i = 0; i < n; ++i ) {
		t += dt; CHECK_CLOSE( cst( c, dt ), c, 1e-4, 1e-4 ); // a constant stays
		double early = ini( c, dt ); if ( t < delay - 2.6 * window - 2 * dt ) CHECK_CLOSE( early, init, 1e-4, 1e-4 ); if ( t > delay + 2.6 * window + 2 * dt ) CHECK_CLOSE( early, c, 2e-3 , 2e-3 ); // first the initial value, then what came in
		double r = ramp( m * t, dt ); if ( t > delay + 2.6 * window + 2 * dt ) CHECK_CLOSE( r, m * ( t - delay ), 0, std::fabs( m ) * ( dt + 1e-3 * t ) + 1e-6 );
		double x = g.real( 10 ); lo = std::min( lo, x ); hi = std::max( hi, x ); double y = any( x, dt ); CHECK_EQ( any(), any.delayed_value() ); CHECK_EQ( y, any() ); double slack = 0.2 * ( hi - lo ) + 1e-6; CHECK( y >= lo - slack && y <= hi + slack );
	}
}
LAW( delayer, 120000 ) { switch ( g.below( 4 ) ) { case 0: delays< flut::delayer, 2 >( g, false ); break; case 1: delays< flut::delayer, 3 >( g, false ); break; case 2: delays< flut::delayer, 5 >( g, false ); break; default: delays< flut::delayer, 16 >( g, false ); } }
LAW( smooth_delayer, 120000 ) { switch ( g.below( 4 ) ) { case 0: delays< flut::smooth_delayer, 2 >( g, true ); break; case 1: delays< flut::smooth_delayer, 3 >( g, true ); break; case 2: delays< flut::smooth_delayer, 5 >( g, true ); break; default: delays< flut::smooth_delayer, 16 >( g, true ); } }

// Against a model in double: the input is held for each step; windows follow each other; what came out of a window is reached N - 1 windows later and interpolated
template< template< typename, int > class D, int N > static void windows( Gen& g, bool smooth ) {
	const double ts = pow2( g, -10, 20 ), vs = pow2( g, -30, 30 ); float delay = float( ts * g.positive( 0.05, 2 ) ); double window = smooth ? delay / ( N - 0.5 ) : delay / ( N - 1.0 ), init = g.coin() ? 0 : vs * g.real( 10 ); D< double, N > d( delay, init ); vector< double > vals( N, init ); // vals.back(): the last completed window
	double t = 0, part = 0, tot = 0; int n = 0; bool vary = g.coin(); double base = window / g.real( 2.2, 20 ); Seq q( g, 200 );
	while ( q.more() ) {
		float dt = (float)( vary ? window * g.real( 0.01, 0.45 ) : base ); double x = vs * g.real( 10 ); double y = d( x, dt ); ++n; tot += dt; t += dt; double tie = 1e-4 * window * ( 1 + n / 50 );
		if ( smooth ) { if ( std::fabs( t - window ) < tie ) { part += x * dt; double rest = std::max( 0.0, t - window ); vals.push_back( ( part - rest * x ) / window ); t = rest; part = rest * x; g.note( "tie", n ); break; } // float rounding decides
			if ( t >= window ) { t -= window; vals.push_back( ( part + ( dt - t ) * x ) / window ); part = t * x; } else part += x * dt; }
		else { if ( std::fabs( t + 0.5 * dt - window ) < tie ) { g.note( "tie", n ); break; } if ( t + 0.5 * dt > window ) { t -= window; vals.push_back( x ); } }
		double w = t / window; size_t m = vals.size() - 1; double next = N == 2 ? vals[ m ] : vals[ m + 2 - N ], want = w * next + ( 1 - w ) * vals[ m + 1 - N ];
		CHECK_CLOSE( y, want, 0, vs * 20 * 2e-4 * ( 1 + n / 50 ) ); CHECK_EQ( d(), y ); CHECK_EQ( d.delayed_value(), y );
	}
	g.note( "windows", N ).note( "delay", delay ).note( "init", init ).note( "samples", n ).note( "time", tot ); g.nontrivial( tot > delay );
}
LAW( delayer_windows, 120000 ) { switch ( g.below( 4 ) ) { case 0: windows< flut::delayer, 2 >( g, false ); break; case 1: windows< flut::delayer, 3 >( g, false ); break; case 2: windows< flut::delayer, 5 >( g, false ); break; default: windows< flut::delayer, 16 >( g, false ); } }
LAW( smooth_windows, 120000 ) { switch ( g.below( 4 ) ) { case 0: windows< flut::smooth_delayer, 2 >( g, true ); break; case 1: windows< flut::smooth_delayer, 3 >( g, true ); break; case 2: windows< flut::smooth_delayer, 5 >( g, true ); break; default: windows< flut::smooth_delayer, 16 >( g, true ); } }
