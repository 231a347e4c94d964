#pragma once
#include "grpc++/grpc++.h"
#include "proto/grpc_gui.pb.h"
namespace visor {
class GUINotifier final
{
public:
	class Service : public grpc::Service
	{
	public:
		virtual grpc::Status SubscribeNode (grpc::ServerContext*, const StringId*, grpc::ServerWriter<NodeMessage>*) { return grpc::Status(grpc::StatusCode::UNIMPLEMENTED, ""); }
		virtual grpc::Status SubscribeEdge (grpc::ServerContext*, const StringId*, grpc::ServerWriter<EdgeMessage>*) { return grpc::Status(grpc::StatusCode::UNIMPLEMENTED, ""); }
		virtual grpc::Status EndSubscription (grpc::ServerContext*, const StringId*, Empty*) { return grpc::Status(grpc::StatusCode::UNIMPLEMENTED, ""); }
		virtual grpc::Status GetNodeData (grpc::ServerContext*, const StringId*, NodeData*) { return grpc::Status(grpc::StatusCode::UNIMPLEMENTED, ""); }
	};
};
}
