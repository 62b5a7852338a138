ML='src/fisx_multilayer.cpp'; X='src/fisx_xrf.cpp'; L='src/fisx_layer.cpp'; E='src/fisx_elements.cpp'; EL='src/fisx_element.cpp'; D='src/fisx_detector.cpp'; MA='src/fisx_math.cpp'; P='src/fisx_epdl97.cpp'
M=[
('REF massthickness var',ML,'density_1 = sample[iLayer].getDensity();\n                thickness_1 = sample[iLayer].getThickness();','density_1 = sample[iLayer].getDensity();\n                thickness_1 = sample[iLayer].getThickness();\n                const double massThickness = density_1 * thickness_1; if (massThickness < 0.0) throw std::runtime_error("x");'),
('REF reuse tmp',ML,'tmpDouble = (1.0 - exp( - tmpDouble * density_1 * thickness_1)) / tmpDouble;','double arg = tmpDouble * density_1; arg *= thickness_1; arg = 1.0 - std::exp(-arg); tmpDouble = arg / tmpDouble;'),
('REF helper',X,'''std::vector<double> XRF::getLayerTransmission(const Layer & layer,
                                             const std::vector<double> & energy,''','''static double massPath(const Layer & layer, const double & angle)
{
    double path = layer.getDensity() * layer.getThickness();
    if (angle != 90.0)
    {
        double s = std::sin(std::fabs(angle) * std::acos(-1.0) / 180.);
        path /= s;
    }
    return path;
}

std::vector<double> XRF::getLayerTransmission(const Layer & layer,
                                             const std::vector<double> & energy,'''),
('REF degrad const',X,'''            tmpDouble = std::sin(angle * PI / 180.);
        tmpDouble = layer''','''        { const double degree = PI / 180.; tmpDouble = std::sin(angle * degree); }
        tmpDouble = layer'''),
('REF static const deg',E,'sinAlphaIn = std::sin(alphaIn * (3.141592653589793/180.));','static const double toRadians = 3.141592653589793 / 180.; const double radians = alphaIn * toRadians; sinAlphaIn = std::sin(radians);'),
('REF M_PI',E,'sinAlphaIn = std::sin(alphaIn * (3.141592653589793/180.));','sinAlphaIn = std::sin(alphaIn * M_PI / 180.0);'),
('REF M_PI2',E,'sinAlphaIn = std::sin(alphaIn * (3.141592653589793/180.));','const double rad = M_PI * alphaIn / 180.0; sinAlphaIn = std::sin(rad);'),
('REF deg local array',E,'sinAlphaIn = std::sin(alphaIn * (3.141592653589793/180.));','double a[2]; a[0] = alphaIn; a[1] = a[0] * (3.141592653589793/180.); sinAlphaIn = std::sin(a[1]);'),
('REF in place local',E,'sinAlphaIn = std::sin(alphaIn * (3.141592653589793/180.));','double a = alphaIn; a *= 3.141592653589793; a /= 180.; sinAlphaIn = std::sin(a);'),
('REF mathutil helper',MA,'double Math::deBoerL0(const double & mu1','''static double ratioLog(double a, double b)
{
    return (b / a) * std::log(1.0 + a / b);
}

double Math::deBoerL0(const double & mu1'''),
('REF pow',D,'this->diameter = 2.0 * sqrt(area/pi);','this->diameter = 2.0 * std::pow(area/pi, 0.5);'),
('REF sq',D,'this->diameter = 2.0 * sqrt(area/pi);','this->diameter = sqrt(4.0 * area/pi);'),
('REF exc split',EL,'''        it->second["factor"] = it->second["rate"] * weight;
        it->second["rate"] = it->second["factor"] *\\
                        this->getMassAttenuationCoefficients(energy)["photoelectric"];''','''        const double factor = it->second["rate"] * weight;
        const double mu = this->getMassAttenuationCoefficients(energy)["photoelectric"];
        it->second["rate"] = factor * mu;
        it->second["factor"] = factor;'''),
('REF exc ref',EL,'''        it->second["factor"] = it->second["rate"] * weight;
        it->second["rate"] = it->second["factor"] *\\
                        this->getMassAttenuationCoefficients(energy)["photoelectric"];''','''        std::map<std::string, double> & line = it->second;
        double & rate = line["rate"];
        rate *= weight;
        line["factor"] = rate;
        rate *= this->getMassAttenuationCoefficients(energy)["photoelectric"];'''),
('REF exc newmap',EL,'''        it->second["factor"] = it->second["rate"] * weight;
        it->second["rate"] = it->second["factor"] *\\
                        this->getMassAttenuationCoefficients(energy)["photoelectric"];''','''        std::map<std::string, double> line(it->second);
        line["factor"] = it->second["rate"] * weight;
        line["rate"] = line["factor"] * this->getMassAttenuationCoefficients(energy)["photoelectric"];
        it->second = line;'''),
('REF escape ratio',E,'tmpDouble = sinAlphaIn * (muFluorescence / muIncident);','tmpDouble = muFluorescence; tmpDouble *= sinAlphaIn; tmpDouble /= muIncident;'),
('REF pair struct',ML,'''            tmpDouble += sampleLayerDensity[iLayer] * sampleLayerThickness[iLayer] *\\
                         muTotal[iLayer]/sinAlphaIn;''','''            const std::pair<double, double> dt(sampleLayerDensity[iLayer], sampleLayerThickness[iLayer]);
            tmpDouble += dt.first * dt.second * muTotal[iLayer] / sinAlphaIn;'''),
('REF make_pair',ML,'''            tmpDouble += sampleLayerDensity[iLayer] * sampleLayerThickness[iLayer] *\\
                         muTotal[iLayer]/sinAlphaIn;''','''            const std::pair<double, double> dt = std::make_pair(sampleLayerDensity[iLayer], sampleLayerThickness[iLayer]);
            tmpDouble += dt.first * dt.second * muTotal[iLayer] / sinAlphaIn;'''),
('REF vec push',ML,'''            tmpDouble += sampleLayerDensity[iLayer] * sampleLayerThickness[iLayer] *\\
                         muTotal[iLayer]/sinAlphaIn;''','''            std::vector<double> factors; factors.push_back(sampleLayerDensity[iLayer]); factors.push_back(sampleLayerThickness[iLayer]); factors.push_back(muTotal[iLayer]);
            double product = 1.0; for (std::vector<double>::size_type k = 0; k < factors.size(); k++) product *= factors[k];
            tmpDouble += product / sinAlphaIn;'''),
('REF mu struct',X,'tmpDouble = layer.getDensity() * layer.getThickness() / tmpDouble;','{ struct Slab { double density; double thickness; } slab; slab.density = layer.getDensity(); slab.thickness = layer.getThickness(); tmpDouble = slab.density * slab.thickness / tmpDouble; }'),
('REF struct odd names',X,'tmpDouble = layer.getDensity() * layer.getThickness() / tmpDouble;','{ struct Slab { double thickness; double energy; } slab; slab.thickness = layer.getDensity() * layer.getThickness(); slab.energy = 0.; tmpDouble = slab.thickness / tmpDouble; }'),
]
