// C01: components/Material.{h,cpp}
#include "verif.h"
#include "components/Material.cpp"

using namespace maxwell;

VF_HARNESS(C01_construction)
{
	double eps = vf_real("eps", 0.0, 4.0), mu = vf_real("mu", 0.0, 4.0), sigma = vf_real("sigma", -1.0, 3.0);
	bool ok = true;
	try {
		Material m(eps, mu, sigma);
		vf_ensures(m.getPermittivity() == eps, "an accepted material reports the permittivity it was given");
		vf_ensures(m.getPermeability() == mu, "an accepted material reports the permeability it was given");
		vf_ensures(m.getConductivity() == sigma, "an accepted material reports the conductivity it was given");
		vf_cover("accepted");
	}
	catch (const std::exception&) { ok = false; vf_cover("rejected"); }
	vf_ensures(ok == (eps >= 1.0 && mu >= 1.0 && sigma >= 0.0), "a material is accepted exactly when eps >= 1, mu >= 1 and sigma >= 0");
}

VF_HARNESS(C01_lossless_quantities)
{
	double eps = vf_real("eps", 1.0, 9.0), mu = vf_real("mu", 1.0, 9.0);
	vf_requires(eps >= 1.0 && mu >= 1.0);
	Material m(eps, mu, 0.0);
	double z = m.getImpedance(), y = m.getAdmittance(), v = m.getSpeedOfWave();
	vf_ensures(z > 0.0 && y > 0.0 && v > 0.0, "impedance, admittance and speed of a lossless material are positive");
	vf_ensures_near(z * z * eps, mu, 1e-12, "impedance is sqrt(mu/eps)");
	vf_ensures_near(y * y * mu, eps, 1e-12, "admittance is sqrt(eps/mu)");
	vf_ensures_near(v * v * eps * mu, 1.0, 1e-12, "wave speed is 1/sqrt(eps*mu)");
	vf_cover("lossless");
}

VF_HARNESS(C01_conductive_quantities)
{
	double eps = vf_real("eps", 1.0, 9.0), mu = vf_real("mu", 1.0, 9.0), sigma = vf_real("sigma", 1e-14, 3.0);
	vf_requires(eps >= 1.0 && mu >= 1.0 && sigma > 0.0);
	Material m(eps, mu, sigma);
	int which = vf_choose("which", 3);
	bool failed = false;
	try { which == 0 ? m.getImpedance() : which == 1 ? m.getAdmittance() : m.getSpeedOfWave(); }
	catch (const std::exception&) { failed = true; }
	vf_ensures(failed, "derived quantities of a conductive material are refused");
	vf_cover("conductive");
}

VF_HARNESS(C01_vacuum)
{
	Material m = buildVacuumMaterial();
	vf_ensures(m.getPermittivity() == 1.0 && m.getPermeability() == 1.0 && m.getConductivity() == 0.0, "vacuum has eps = mu = 1 and no conductivity");
	vf_ensures(m.getSpeedOfWave() == 1.0 && m.getImpedance() == 1.0 && m.getAdmittance() == 1.0, "waves in vacuum have unit speed and impedance");
	vf_cover("vacuum");
}
