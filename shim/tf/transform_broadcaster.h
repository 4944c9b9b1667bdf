#pragma once
#include <string>
#include <vector>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <ros/ros.h>
namespace tf {
struct Vector3 { double v[3]; Vector3(double x = 0, double y = 0, double z = 0) : v{x, y, z} {} double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; } double getX() const { return v[0]; } double getY() const { return v[1]; } double getZ() const { return v[2]; } void setX(double a) { v[0] = a; } void setY(double a) { v[1] = a; } void setZ(double a) { v[2] = a; } void setValue(double x, double y, double z) { v[0] = x; v[1] = y; v[2] = z; } };
struct Quaternion { double v[4]; Quaternion(double x = 0, double y = 0, double z = 0, double w = 1) : v{x, y, z, w} {} double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; } double w() const { return v[3]; } };
struct Transform { Vector3 o; Quaternion r; Transform() {} explicit Transform(const Quaternion& q, const Vector3& t = Vector3()) : o(t), r(q) {} Vector3 getOrigin() const { return o; } Quaternion getRotation() const { return r; } void setOrigin(const Vector3& a) { o = a; } void setRotation(const Quaternion& a) { r = a; } };
struct StampedTransform : Transform { ros::Time stamp_; std::string frame_id_, child_frame_id_; StampedTransform() {} StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {} };
inline std::vector<StampedTransform>& sent() { static std::vector<StampedTransform> v; return v; }
struct TransformBroadcaster { void sendTransform(const std::vector<StampedTransform>& t) { for (auto& x : t) sent().push_back(x); } void sendTransform(const StampedTransform& t) { sent().push_back(t); } };
}
