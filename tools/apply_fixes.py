import subprocess,sys
R='/repo/pyqlaw/'
F=[
("fix: rkf45 multiplied its stages by the step twice and used 2197/4101","_integrate.py",[
("y + 1/4*h * k1, p)","y + 1/4*k1, p)"),
("y + 3/32*h*k1 + 9/32*h*k2, p)","y + 3/32*k1 + 9/32*k2, p)"),
("y + 1932/2197*h*k1 - 7200/2197*h*k2 + 7296/2197*h*k3, p)","y + 1932/2197*k1 - 7200/2197*k2 + 7296/2197*k3, p)"),
("y + 439/216*h*k1 - 8*h*k2 + 3680/513*h*k3 - 845/4104*h*k4, p)","y + 439/216*k1 - 8*k2 + 3680/513*k3 - 845/4104*k4, p)"),
("y - 8/27*h*k1 + 2*h*k2 - 3544/2565*h*k3 + 1859/4104*h*k4 - 11/40*h*k5, p)","y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)"),
("2197/4101*k4","2197/4104*k4")]),
("fix: J2 acceleration used z**2 in place of (z/r)**2","_perturbations.py",[
("(1 - 5*rPA[2]**2) * rPA[0],","(1 - 5*(rPA[2]/r)**2) * rPA[0],"),
("(1 - 5*rPA[2]**2) * rPA[1],","(1 - 5*(rPA[2]/r)**2) * rPA[1],"),
("(3 - 5*rPA[2]**2) * rPA[2]","(3 - 5*(rPA[2]/r)**2) * rPA[2]")]),
("fix: wrap() took the remainder modulo 2 and not modulo 2*pi","_transformations.py",[
("% 2.0 * np.pi","% (2.0*np.pi)")]),
("fix: true anomaly of the MEE law and dynamics ignored the quadrant of (f, g)",None,[
("_symbolic.py","ta = l - sym.atan(g/f)","ta = l - sym.atan2(g, f)"),
("_eom.py","ta = l - np.arctan(g/f)","ta = l - np.arctan2(g, f)")]),
("fix: elements_safety clamped the caller's array in place","_convergence.py",[
("oe_clean = oe\n","oe_clean = oe.copy()\n")]),
("fix: a second solve kept the exit code and flag of the first","_qlaw.py",[
("        # initialize values for propagation\n        t_iter = 0.0\n","        # status of this run\n        self.converge = False\n        self.exitcode = 0\n\n        # initialize values for propagation\n        t_iter = 0.0\n")]),
("fix: coasting before the first thrust arc raised UnboundLocalError","_qlaw.py",[
("        n_nan_angles = 0\n","        n_nan_angles = 0\n        alpha, beta = 0.0, 0.0      # recorded until the first thrust arc\n")]),
("fix: battery used the suggested rkf45 step and not the step taken","_qlaw.py",[
("                t_step_local = max(self.step_min, min(self.step_max,h_next))\n","                t_step_next = max(self.step_min, min(self.step_max,h_next))    # suggestion only\n")]),
("fix: Sundman step with a negative increment went forward almost a full period","_qlaw.py",[
("""                if M1 > M0:
                    t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
                else:
                    t_step_local = (M1/(2*np.pi) + 1 - M0/(2*np.pi)) * period
""","""                # (M increases with E, so the time-step has the sign of the increment)
                t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
""")]),
("fix: duty cycle never switched in backward propagation","_qlaw.py",[
("if ((t_iter - t_last_ON) > self.duty_cycle[0])","if (abs(t_iter - t_last_ON) > self.duty_cycle[0])"),
("if ((t_iter - t_last_OFF) > self.duty_cycle[1])","if (abs(t_iter - t_last_OFF) > self.duty_cycle[1])")]),
("fix: effectivities were inverted in backward propagation","_qlaw.py",[
("""        # we return max and min since qdot is defined to be positive
        return max(qdot_list), min(qdot_list)
""","""        # we return max and min since qdot is defined to be positive
        # (it takes the sign of accel_thrust, so compare magnitudes)
        return max(qdot_list, key=abs), min(qdot_list, key=abs)
""")]),
("fix: mee2kep lost the argument of periapsis of equatorial orbits","_elements.py",[
("om = np.arctan2(g*h-f*k, f*h+g*k)","om = np.arctan2(g*np.cos(raan)-f*np.sin(raan), f*np.cos(raan)+g*np.sin(raan))")]),
("fix: Keplerian solutions were exported as if they were SMA-MEE","_qlaw.py",[
("    mee_with_a2sv,\n    get_orbit","    mee_with_a2sv,\n    kep2mee,\n    get_orbit"),
("""        initial_guess = {
            "t0": 0.0,""","""        to_mee = kep2mee if self.elements_type=="keplerian" else mee_with_a2mee
        initial_guess = {
            "t0": 0.0,"""),
("[list(mee_with_a2mee(oe))+[m] for","[list(to_mee(oe))+[m] for")]),
("fix: eta_r of an invalid type was ignored and not refused","_qlaw.py",[
("""            raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")
""","""            raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")

        if not (isinstance(eta_r, float) or callable(eta_r)):
            raise ValueError("Invalid type for `eta_r`. Expected float or callable function.")
""")]),
("fix: gradient of the Keplerian Q was nan with node or periapsis on target","_symbolic.py",[
("            sym.acos(sym.cos(ra - raT)),\n            sym.acos(sym.cos(om - omT)),\n",
"            sym.atan2(sym.sin(ra - raT), sym.cos(ra - raT)),\n            sym.atan2(sym.sin(om - omT), sym.cos(om - omT)),\n")]),
("fix: Keplerian scaling of the semi-major axis lacked the absolute value","_symbolic.py",[
("soe = [(1 + ((a-aT)/(m_petro*aT))**n_petro)","soe = [(1 + (sym.sqrt((a-aT)**2)/(m_petro*aT))**n_petro)")]),
("fix: purely out-of-plane direction raised ZeroDivisionError","_lyapunov.py",[
("np.arctan(-u[2]/np.sqrt(u[0]**2 + u[1]**2))","np.arctan2(-u[2], np.sqrt(u[0]**2 + u[1]**2))")]),
("fix: rounding made inclination and argument of periapsis nan","_elements.py",[
("    inc = np.arccos(h[2] / la.norm(h))\n","    inc = np.arccos(max(-1.0, min(1.0, h[2] / la.norm(h))))\n"),
("        omega = np.arccos( np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc)) )\n","        cos_omega = np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc))\n        omega = np.arccos( max(-1.0, min(1.0, cos_omega)) )\n")]),
("fix: without full recharge, thrust could outlast the stored charge","_qlaw.py",[
("                (charging is False):\n","                ((charging is False) or (self.require_full_recharge is False)):\n")]),
("fix: perturbations without third bodies raised TypeError","_perturbations.py",[
("        self.third_bodies_names = third_bodies_names\n","        self.third_bodies_names = third_bodies_names if third_bodies_names is not None else []\n"),
("            self.third_bodies_gms = third_bodies_gms\n","            self.third_bodies_gms = third_bodies_gms if third_bodies_gms is not None else []\n")]),
("fix: target elements of a wrong length were accepted","_qlaw.py",[
('        #assert len(oeT)==5, "oeT must have 5 components"\n','        assert len(oeT) in (5, 6), "oeT must have 5 components (a 6th is ignored)"\n')]),
]
for msg,fn,reps in F:
    for r in reps:
        if fn is None: f,o,n=r
        else: f=fn;o,n=r
        s=open(R+f).read()
        assert s.count(o)==1,(msg,o,s.count(o))
        open(R+f,'w').write(s.replace(o,n))
    subprocess.check_call(['git','-C','/repo','commit','-qam',msg])
